From fe0a2bf9dc5db1ee1a50545af347eb95aad493e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 01/54] fix: convert timestamp ticks with the period of the
 timer's own device

---
 source/RenderGraph/FramePassTimer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/FramePassTimer.cpp b/source/RenderGraph/FramePassTimer.cpp
index 63962d3..a49e1f0 100644
--- a/source/RenderGraph/FramePassTimer.cpp
+++ b/source/RenderGraph/FramePassTimer.cpp
@@ -126,7 +126,7 @@ namespace crg
 
 	void FramePassTimer::retrieveGpuTime()noexcept
 	{
-		static float const period = m_context.properties.limits.timestampPeriod;
+		float const period = m_context.properties.limits.timestampPeriod;
 
 		auto before = Clock::now();
 		m_gpuTime = 0ns;
@@ -143,7 +143,7 @@ namespace crg
 				, sizeof( uint64_t )
 				, VK_QUERY_RESULT_WAIT_BIT | VK_QUERY_RESULT_64_BIT );
 
-			auto gpuTime = Nanoseconds{ uint64_t( float( values[1] - values[0] ) / period ) };
+			auto gpuTime = Nanoseconds{ uint64_t( float( values[1] - values[0] ) * period ) };
 			m_gpuTime += gpuTime;
 
 			query.started = false;
-- 
2.43.0


From 93a2942005dd149a1145386c8c231486ecce908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 02/54] fix: run the implicit actions of every disabled pass
 registered for a view

---
 source/RenderGraph/RecordContext.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 4b08707..fb44624 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -8,7 +8,9 @@ See LICENSE file in root folder.
 #include "RenderGraph/ResourceHandler.hpp"
 #include "RenderGraph/RunnableGraph.hpp"
 
+#include <algorithm>
 #include <array>
+#include <iterator>
 #include <string>
 #include <type_traits>
 #include <unordered_set>
@@ -146,22 +148,21 @@ namespace crg
 		, uint32_t index
 		, crg::ImageViewId view )
 	{
-		auto it = std::find_if( m_implicitTransitions.begin()
+		auto it = std::stable_partition( m_implicitTransitions.begin()
 			, m_implicitTransitions.end()
 			, [&view]( ImplicitTransition const & lookup )
 			{
-				return lookup.view == view;
+				return lookup.view != view;
 			} );
+		std::vector< ImplicitTransition > transitions( std::make_move_iterator( it )
+			, std::make_move_iterator( m_implicitTransitions.end() ) );
+		m_implicitTransitions.erase( it, m_implicitTransitions.end() );
 
-		if ( it != m_implicitTransitions.end() )
+		for ( auto const & transition : transitions )
 		{
-			auto pass = it->pass;
-			auto action = it->action;
-			m_implicitTransitions.erase( it );
-
-			if ( !pass->isEnabled() )
+			if ( !transition.pass->isEnabled() )
 			{
-				action( *this, commandBuffer, index );
+				transition.action( *this, commandBuffer, index );
 			}
 		}
 	}
-- 
2.43.0


From 620206de87ddacc0abd4592f79b3f4aa096429a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 03/54] fix: keep disabled passes out of the recorded pipeline
 states sequence

---
 source/RenderGraph/RunnableGraph.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 5353d57..9641e26 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -304,9 +304,8 @@ namespace crg
 		{
 			auto it = itGraph->second.begin();
 			auto currPass = m_passes.begin();
-			recordContext.setNextPipelineState( ( *currPass )->getPipelineState()
+			recordContext.setNextPipelineState( rungrf::getNextState( ( *currPass )->getPipelineState(), currPass, m_passes.end() )
 				, ( *currPass )->getImageLayouts() );
-			auto nextPass = std::next( currPass );
 			m_fence.wait( 0xFFFFFFFFFFFFFFFFULL );
 			m_context.vkResetCommandBuffer( m_commandBuffer, 0u );
 			VkCommandBufferBeginInfo beginInfo{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO
@@ -321,11 +320,14 @@ namespace crg
 				auto const & pass = *currPass;
 				++currPass;
 
-				if ( nextPass != m_passes.end() )
+				if ( !pass->isEnabled() )
 				{
-					recordContext.setNextPipelineState( rungrf::getNextState( pass->getPipelineState(), nextPass, m_passes.end() )
-						, rungrf::gatherNextImageLayouts( pass->getImageLayouts(), nextPass, m_passes.end() ) );
-					++nextPass;
+					// Disabled passes don't execute anything, hence they don't take part in the pipeline states sequence.
+				}
+				else if ( currPass != m_passes.end() )
+				{
+					recordContext.setNextPipelineState( rungrf::getNextState( pass->getPipelineState(), currPass, m_passes.end() )
+						, rungrf::gatherNextImageLayouts( pass->getImageLayouts(), currPass, m_passes.end() ) );
 				}
 				else
 				{
-- 
2.43.0


From 77dc709b98924d0346170729f9199f7f1e700699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 04/54] fix: synchronise declared image uses with the stages
 and accesses of the attachment

A pass barrier targeted the natural stage of the wanted layout (none for
GENERAL, the fragment shader for sampled images even in a compute pass)
instead of the stage and access the attachment actually uses.
---
 source/RenderGraph/Attachment.cpp   | 9 ++++++++-
 source/RenderGraph/RunnablePass.cpp | 4 +++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index 00426d3..c3484b4 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -392,7 +392,14 @@ namespace crg
 
 		if ( isSampledView() )
 		{
-			result |= VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
+			if ( isCompute )
+			{
+				result |= VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT;
+			}
+			else
+			{
+				result |= VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
+			}
 		}
 		else if ( isTransitionView() )
 		{
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 1cd5127..637bf76 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -397,7 +397,9 @@ namespace crg
 				if ( !attach.isNoTransition()
 					&& ( attach.isSampledView() || attach.isStorageView() || attach.isTransferView() || attach.isTransitionView() ) )
 				{
-					auto needed = makeLayoutState( attach.getImageLayout( m_context.separateDepthStencilLayouts ) );
+					LayoutState needed{ attach.getImageLayout( m_context.separateDepthStencilLayouts )
+						, attach.getAccessMask()
+						, attach.getPipelineStageFlags( m_callbacks.isComputePass() ) };
 					auto currentLayout = ( !attach.isInput()
 						? crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
 						: m_graph.getCurrentLayoutState( context, view ) );
-- 
2.43.0


From 445945d4fab879dc26e9970c0a077f9552f2c59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 05/54] fix: emit a barrier when only the access changes or the
 previous access wrote

Two consecutive uses in the same layout and stage still need a memory
dependency when one of them writes.
---
 source/RenderGraph/RecordContext.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index fb44624..8abbc55 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -44,6 +44,16 @@ namespace crg
 
 			return result;
 		}
+
+		static bool hasWriteAccess( VkAccessFlags access )
+		{
+			return ( access & ( VK_ACCESS_SHADER_WRITE_BIT
+				| VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT
+				| VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT
+				| VK_ACCESS_TRANSFER_WRITE_BIT
+				| VK_ACCESS_HOST_WRITE_BIT
+				| VK_ACCESS_MEMORY_WRITE_BIT ) ) != 0u;
+		}
 	}
 
 	//************************************************************************************************
@@ -241,7 +251,9 @@ namespace crg
 
 		if ( force
 			|| ( ( from.layout != wantedState.layout
-				|| from.state.pipelineStage != wantedState.state.pipelineStage )
+				|| from.state.pipelineStage != wantedState.state.pipelineStage
+				|| from.state.access != wantedState.state.access
+				|| recctx::hasWriteAccess( from.state.access ) )
 				&& wantedState.layout != VK_IMAGE_LAYOUT_UNDEFINED ) )
 		{
 			auto & resources = getResources();
@@ -335,7 +347,8 @@ namespace crg
 
 		if ( force
 			|| ( from.access != wantedState.access
-				|| from.pipelineStage != wantedState.pipelineStage ) )
+				|| from.pipelineStage != wantedState.pipelineStage
+				|| recctx::hasWriteAccess( from.access ) ) )
 		{
 			auto const & resources = getResources();
 			VkBufferMemoryBarrier barrier{ VK_STRUCTURE_TYPE_BUFFER_MEMORY_BARRIER
-- 
2.43.0


From 827886075f3e02642feb834659f944eabd67d73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 06/54] fix: make buffer barriers cover the whole buffer their
 tracked state stands for

The access state is kept per buffer, not per range, so a barrier limited to
the range of one attachment left earlier writes to other ranges unavailable
while the tracked state forgot them.
---
 source/RenderGraph/RecordContext.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 8abbc55..c3450b5 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -351,6 +351,7 @@ namespace crg
 				|| recctx::hasWriteAccess( from.access ) ) )
 		{
 			auto const & resources = getResources();
+			// The access state is tracked for the whole buffer, hence the barrier must cover it entirely.
 			VkBufferMemoryBarrier barrier{ VK_STRUCTURE_TYPE_BUFFER_MEMORY_BARRIER
 				, nullptr
 				, from.access
@@ -358,8 +359,8 @@ namespace crg
 				, VK_QUEUE_FAMILY_IGNORED
 				, VK_QUEUE_FAMILY_IGNORED
 				, buffer
-				, subresourceRange.offset
-				, subresourceRange.size };
+				, 0u
+				, VK_WHOLE_SIZE };
 			resources->vkCmdPipelineBarrier( commandBuffer
 				, from.pipelineStage
 				, wantedState.pipelineStage
-- 
2.43.0


From 9cf993e9f9428ba698f15e2224de9f267793e39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 07/54] fix: run the implicit actions of a pass before
 preparing its views

An action may read or write another view of the pass: run after that view's
barrier it left it in the wrong layout.
---
 source/RenderGraph/RunnablePass.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 637bf76..2e22e89 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -387,12 +387,17 @@ namespace crg
 #pragma GCC diagnostic pop
 			m_timer.beginPass( commandBuffer );
 
+			// The implicit actions may use other views of this pass, run them all before preparing any view.
 			for ( auto & attach : m_pass.images )
 			{
-				auto view = attach.view( index );
 				context.runImplicitTransition( commandBuffer
 					, index
-					, view );
+					, attach.view( index ) );
+			}
+
+			for ( auto & attach : m_pass.images )
+			{
+				auto view = attach.view( index );
 
 				if ( !attach.isNoTransition()
 					&& ( attach.isSampledView() || attach.isStorageView() || attach.isTransferView() || attach.isTransitionView() ) )
-- 
2.43.0


From 8ab9d86b05123f718dccd189f1e69a0473fae649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 08/54] fix: merge layout states per subresource

The states of an image known for some subresources hid the ones the other
tracker knows for the remaining subresources.
---
 source/RenderGraph/LayerLayoutStatesHandler.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/LayerLayoutStatesHandler.cpp b/source/RenderGraph/LayerLayoutStatesHandler.cpp
index 2fe009d..e6b4d42 100644
--- a/source/RenderGraph/LayerLayoutStatesHandler.cpp
+++ b/source/RenderGraph/LayerLayoutStatesHandler.cpp
@@ -17,9 +17,19 @@ namespace crg
 
 	void LayerLayoutStatesHandler::addStates( LayerLayoutStatesHandler const & data )
 	{
-		for ( auto & state : data.images )
+		for ( auto & [image, layers] : data.images )
 		{
-			images.insert( state );
+			auto & dstLayers = images.try_emplace( image ).first->second;
+
+			for ( auto & [layer, levels] : layers )
+			{
+				auto & dstLevels = dstLayers.try_emplace( layer ).first->second;
+
+				for ( auto & level : levels )
+				{
+					dstLevels.insert( level );
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From 365294a5f55c4fb3a35d6a0ad1aaaf0645922e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 09/54] fix: remember the state of resources a record did not
 use

Recording a frame replaced the final states, so an image left alone by one
frame was taken for undefined, and its content dropped, by the next one.
---
 include/RenderGraph/RecordContext.hpp | 5 +++++
 source/RenderGraph/FrameGraph.cpp     | 3 +++
 source/RenderGraph/RecordContext.cpp  | 7 ++++++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/RenderGraph/RecordContext.hpp b/include/RenderGraph/RecordContext.hpp
index 3d6528d..5ee4d36 100644
--- a/include/RenderGraph/RecordContext.hpp
+++ b/include/RenderGraph/RecordContext.hpp
@@ -36,6 +36,11 @@ namespace crg
 		//@{
 		CRG_API void addStates( RecordContext const & data );
 		/**
+		*\brief
+		*	Adds the states of the resources unknown to this context, from the given one.
+		*/
+		CRG_API void addResourcesStates( RecordContext const & data );
+		/**
 		*\name	Pipeline
 		*/
 		//@{
diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 0ef05c2..5af3c81 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -338,7 +338,10 @@ namespace crg
 
 	void FrameGraph::registerFinalState( RecordContext const & context )
 	{
+		auto previousState = std::move( m_finalState );
 		m_finalState = context;
+		// The resources which weren't used by this record are still in their previous state.
+		m_finalState.addResourcesStates( previousState );
 	}
 
 	VkExtent3D getExtent( ImageId const & image )
diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index c3450b5..1fa9e10 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -73,7 +73,7 @@ namespace crg
 	{
 	}
 
-	void RecordContext::addStates( RecordContext const & data )
+	void RecordContext::addResourcesStates( RecordContext const & data )
 	{
 		m_images.addStates( data.m_images );
 
@@ -81,6 +81,11 @@ namespace crg
 		{
 			m_buffers.insert( state );
 		}
+	}
+
+	void RecordContext::addStates( RecordContext const & data )
+	{
+		addResourcesStates( data );
 
 		if ( m_prevPipelineState.access < data.m_currPipelineState.access )
 		{
-- 
2.43.0


From 6839f827103d471cbdbdd76cdce92451d852bdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 10/54] fix: look up the current state of every subresource of
 a view

When only some subresources of a view were used in this frame, the graph
inputs and the previous final states of the others were ignored.
---
 source/RenderGraph/RunnableGraph.cpp | 42 ++++++++++++++++------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 9641e26..9f4e0c9 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -421,31 +421,37 @@ namespace crg
 		, VkImageViewType viewType
 		, VkImageSubresourceRange range )const
 	{
-		auto result = context.getLayoutState( image, viewType, range );
-
-		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
+		// Subresources can have different states, hence lookup each one of them.
+		for ( uint32_t layer = 0u; layer < range.layerCount; ++layer )
 		{
-			// Lookup in graph's external inputs.
-			result = m_graph.getInputLayoutState( image, viewType, range );
-
-			if ( result.layout != VK_IMAGE_LAYOUT_UNDEFINED )
+			for ( uint32_t level = 0u; level < range.levelCount; ++level )
 			{
-				context.setLayoutState( image, viewType, range, result );
-			}
-		}
+				VkImageSubresourceRange const subresource{ range.aspectMask
+					, range.baseMipLevel + level
+					, 1u
+					, range.baseArrayLayer + layer
+					, 1u };
 
-		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
-		{
-			// Lookup in graph's previous final state.
-			result = m_graph.getFinalLayoutState( image, viewType, range );
+				if ( context.getLayoutState( image, viewType, subresource ).layout == VK_IMAGE_LAYOUT_UNDEFINED )
+				{
+					// Lookup in graph's external inputs.
+					auto state = m_graph.getInputLayoutState( image, viewType, subresource );
 
-			if ( result.layout != VK_IMAGE_LAYOUT_UNDEFINED )
-			{
-				context.setLayoutState( image, viewType, range, result );
+					if ( state.layout == VK_IMAGE_LAYOUT_UNDEFINED )
+					{
+						// Lookup in graph's previous final state.
+						state = m_graph.getFinalLayoutState( image, viewType, subresource );
+					}
+
+					if ( state.layout != VK_IMAGE_LAYOUT_UNDEFINED )
+					{
+						context.setLayoutState( image, viewType, subresource, state );
+					}
+				}
 			}
 		}
 
-		return result;
+		return context.getLayoutState( image, viewType, range );
 	}
 
 	LayoutState RunnableGraph::getCurrentLayoutState( RecordContext & context
-- 
2.43.0


From 3617d6fbb0759775a90c9c90a6bc30617087b7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 11/54] fix: transition subresources in different states one by
 one

A barrier over a range whose subresources are in different layouts used the
layout of one of them as the old layout of all.
---
 source/RenderGraph/RecordContext.cpp | 49 ++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 1fa9e10..b805b7f 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -45,6 +45,34 @@ namespace crg
 			return result;
 		}
 
+		static bool isUniform( LayerLayoutStatesHandler const & images
+			, ImageId image
+			, VkImageViewType viewType
+			, VkImageSubresourceRange const & range )
+		{
+			auto const first = images.getLayoutState( image
+				, viewType
+				, { range.aspectMask, range.baseMipLevel, 1u, range.baseArrayLayer, 1u } );
+
+			for ( uint32_t layer = 0u; layer < range.layerCount; ++layer )
+			{
+				for ( uint32_t level = 0u; level < range.levelCount; ++level )
+				{
+					if ( auto const state = images.getLayoutState( image
+							, viewType
+							, { range.aspectMask, range.baseMipLevel + level, 1u, range.baseArrayLayer + layer, 1u } );
+						state.layout != first.layout
+						|| state.state.access != first.state.access
+						|| state.state.pipelineStage != first.state.pipelineStage )
+					{
+						return false;
+					}
+				}
+			}
+
+			return true;
+		}
+
 		static bool hasWriteAccess( VkAccessFlags access )
 		{
 			return ( access & ( VK_ACCESS_SHADER_WRITE_BIT
@@ -243,6 +271,27 @@ namespace crg
 		auto range = recctx::adaptRange( *m_resources
 				, image.data->info.format
 				, subresourceRange );
+
+		if ( !recctx::isUniform( m_images, image, viewType, range ) )
+		{
+			// The subresources are in different states, transition them one by one.
+			for ( uint32_t layer = 0u; layer < range.layerCount; ++layer )
+			{
+				for ( uint32_t level = 0u; level < range.levelCount; ++level )
+				{
+					memoryBarrier( commandBuffer
+						, image
+						, viewType
+						, VkImageSubresourceRange{ range.aspectMask, range.baseMipLevel + level, 1u, range.baseArrayLayer + layer, 1u }
+						, VK_IMAGE_LAYOUT_UNDEFINED
+						, wantedState
+						, force );
+				}
+			}
+
+			return;
+		}
+
 		auto from = getLayoutState( image
 			, viewType
 			, range );
-- 
2.43.0


From 80715a096862f7b92e679fdf17c6da44e0cb194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 12/54] fix: derive render pass dependencies and layouts from
 the attachments' real states

The subpass dependencies only covered colour output and the neighbour passes'
pipeline states, and a render pass was kept although the layouts its
attachments come from or go to had changed.
---
 .../RunnablePasses/RenderPassHolder.hpp       |   7 +-
 .../RunnablePasses/RenderPassHolder.cpp       | 102 ++++++++++++++----
 2 files changed, 86 insertions(+), 23 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
index 93f4493..5b6fa4b 100644
--- a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
@@ -68,8 +68,13 @@ namespace crg
 		}
 
 	private:
-		void doCreateRenderPass( RecordContext & context
+		std::vector< Entry > doListEntries( RecordContext & context
 			, crg::RunnablePass const & runnable
+			, PipelineState & previousState
+			, PipelineState & nextState
+			, uint32_t passIndex )const;
+		void doCreateRenderPass( RecordContext & context
+			, std::vector< Entry > const & entries
 			, PipelineState const & previousState
 			, PipelineState const & nextState
 			, uint32_t passIndex );
diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 92378b1..4d2b5f2 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -9,6 +9,7 @@ See LICENSE file in root folder.
 #include "RenderGraph/Log.hpp"
 #include "RenderGraph/RunnableGraph.hpp"
 
+#include <algorithm>
 #include <array>
 
 namespace crg
@@ -94,19 +95,28 @@ namespace crg
 				|| ( lhs.state.access != 0 && lhs.state.pipelineStage != rhs.state.pipelineStage );
 		}
 
-		static bool checkAttaches( RecordContext const & context
-			, std::vector< RenderPassHolder::Entry > const & attaches
-			, uint32_t passIndex )
+		static bool checkAttaches( std::vector< RenderPassHolder::Entry > const & lhs
+			, std::vector< RenderPassHolder::Entry > const & rhs )
 		{
-			auto it = std::find_if( attaches.begin()
-				, attaches.end()
-				, [&context, passIndex]( RenderPassHolder::Entry const & lookup )
+			return std::equal( lhs.begin()
+				, lhs.end()
+				, rhs.begin()
+				, rhs.end()
+				, []( RenderPassHolder::Entry const & lhsEntry, RenderPassHolder::Entry const & rhsEntry )
 				{
-					auto layout = context.getLayoutState( resolveView( lookup.view, passIndex ) );
-					return layout != lookup.input
-						&& layout.layout != VK_IMAGE_LAYOUT_UNDEFINED;
+					return !( lhsEntry.input != rhsEntry.input )
+						&& !( lhsEntry.output != rhsEntry.output );
 				} );
-			return it == attaches.end();
+		}
+
+		static void addState( PipelineState & result
+			, LayoutState const & state )
+		{
+			if ( state.layout != VK_IMAGE_LAYOUT_UNDEFINED )
+			{
+				result.access |= state.state.access;
+				result.pipelineStage |= state.state.pipelineStage;
+			}
 		}
 	}
 
@@ -168,9 +178,14 @@ namespace crg
 		auto & data = m_passes[passIndex];
 		auto previousState = context.getPrevPipelineState();
 		auto nextState = context.getNextPipelineState();
+		auto entries = doListEntries( context
+			, runnable
+			, previousState
+			, nextState
+			, passIndex );
 
 		if ( data.renderPass
-			&& rpHolder::checkAttaches( context, data.attaches, passIndex )
+			&& rpHolder::checkAttaches( data.attaches, entries )
 			&& data.previousState == previousState
 			&& data.nextState == nextState )
 		{
@@ -179,7 +194,7 @@ namespace crg
 
 		data.cleanup( m_context );
 		doCreateRenderPass( context
-			, runnable
+			, entries
 			, previousState
 			, nextState
 			, passIndex );
@@ -233,8 +248,39 @@ namespace crg
 		m_currentPass = nullptr;
 	}
 
-	void RenderPassHolder::doCreateRenderPass( RecordContext & context
+	std::vector< RenderPassHolder::Entry > RenderPassHolder::doListEntries( RecordContext & context
 			, crg::RunnablePass const & runnable
+			, PipelineState & previousState
+			, PipelineState & nextState
+			, uint32_t passIndex )const
+	{
+		std::vector< Entry > result;
+
+		for ( auto & attach : m_pass.images )
+		{
+			if ( attach.isDepthAttach()
+				|| attach.isStencilAttach()
+				|| attach.isColourAttach() )
+			{
+				auto view = attach.view( passIndex );
+				auto resolved = resolveView( view, passIndex );
+				auto currentLayout = m_graph.getCurrentLayoutState( context, resolved );
+				auto nextLayout = m_graph.getNextLayoutState( context, runnable, resolved );
+				auto from = ( !attach.isInput()
+					? crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
+					: currentLayout );
+				// The attachment must wait for its own previous use, and its next use must wait for it.
+				rpHolder::addState( previousState, currentLayout );
+				rpHolder::addState( nextState, nextLayout );
+				result.push_back( { view, from, nextLayout } );
+			}
+		}
+
+		return result;
+	}
+
+	void RenderPassHolder::doCreateRenderPass( RecordContext & context
+			, std::vector< Entry > const & entries
 			, PipelineState const & previousState
 			, PipelineState const & nextState
 			, uint32_t passIndex )
@@ -243,6 +289,9 @@ namespace crg
 		VkAttachmentReferenceArray colorReferences;
 		VkAttachmentReference depthReference{};
 		auto & data = m_passes[passIndex];
+		VkPipelineStageFlags stages{};
+		VkAccessFlags accesses{};
+		auto entryIt = entries.begin();
 		m_blendAttachs.clear();
 
 		for ( auto & attach : m_pass.images )
@@ -253,15 +302,15 @@ namespace crg
 			{
 				auto view = attach.view( passIndex );
 				auto resolved = resolveView( view, passIndex );
-				auto currentLayout = m_graph.getCurrentLayoutState( context, resolved );
-				auto nextLayout = m_graph.getNextLayoutState( context, runnable, resolved );
-				auto from = ( !attach.isInput()
-					? crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
-					: currentLayout );
+				auto const & from = entryIt->input;
+				auto const & nextLayout = entryIt->output;
+				++entryIt;
 				checkUndefinedInput( "RenderPass", attach, resolved, from.layout );
 
 				if ( attach.isDepthAttach() || attach.isStencilAttach() )
 				{
+					stages |= VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
+					accesses |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT;
 					depthReference = rpHolder::addAttach( context
 						, attach
 						, view
@@ -274,6 +323,8 @@ namespace crg
 				}
 				else if ( attach.isColourAttach() )
 				{
+					stages |= VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT;
+					accesses |= VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT;
 					colorReferences.push_back( rpHolder::addAttach( context
 						, attach
 						, view
@@ -288,6 +339,13 @@ namespace crg
 			}
 		}
 
+
+		if ( !stages )
+		{
+			stages = VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT;
+			accesses = VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT;
+		}
+
 		VkSubpassDescription subpassDesc{ 0u
 			, VK_PIPELINE_BIND_POINT_GRAPHICS
 			, 0u
@@ -304,15 +362,15 @@ namespace crg
 			{ VK_SUBPASS_EXTERNAL
 				, 0u
 				, previousState.pipelineStage
-				, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT
+				, stages
 				, previousState.access
-				, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT
+				, accesses
 				, VK_DEPENDENCY_BY_REGION_BIT }
 			, { 0u
 				, VK_SUBPASS_EXTERNAL
-				, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT
+				, stages
 				, nextState.pipelineStage
-				, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT
+				, accesses
 				, nextState.access
 				, VK_DEPENDENCY_BY_REGION_BIT } };
 		VkRenderPassCreateInfo createInfo{ VK_STRUCTURE_TYPE_RENDER_PASS_CREATE_INFO
-- 
2.43.0


From 6d31f90b2cfde36451211547025d9745e6a4ca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 13/54] fix: keep the content of the views copied by implicit
 actions

---
 include/RenderGraph/RecordContext.hpp | 17 ++++++++++++
 source/RenderGraph/RecordContext.cpp  | 39 +++++++++++++++++++++++++++
 source/RenderGraph/RunnableGraph.cpp  |  1 +
 3 files changed, 57 insertions(+)

diff --git a/include/RenderGraph/RecordContext.hpp b/include/RenderGraph/RecordContext.hpp
index 5ee4d36..0e0e00c 100644
--- a/include/RenderGraph/RecordContext.hpp
+++ b/include/RenderGraph/RecordContext.hpp
@@ -41,6 +41,16 @@ namespace crg
 		*/
 		CRG_API void addResourcesStates( RecordContext const & data );
 		/**
+		*\brief
+		*	Sets the states the images are in when the record starts.
+		*\param[in]	inputs
+		*	The states of the external inputs.
+		*\param[in]	previous
+		*	The states left by the previous record, for images which are not external inputs.
+		*/
+		CRG_API void setInitialStates( LayerLayoutStatesHandler const & inputs
+			, RecordContext const & previous );
+		/**
 		*\name	Pipeline
 		*/
 		//@{
@@ -63,6 +73,12 @@ namespace crg
 			, VkImageViewType viewType
 			, VkImageSubresourceRange const & subresourceRange )const;
 
+		/**
+		*\brief
+		*	Retrieves the state of the view, looking up the initial states for its subresources still unknown to this record.
+		*/
+		CRG_API LayoutState resolveLayoutState( ImageViewId view );
+
 		CRG_API LayoutState getNextLayoutState( ImageViewId view )const;
 		CRG_API LayoutState getNextLayoutState( ImageId image
 			, VkImageViewType viewType
@@ -204,6 +220,7 @@ namespace crg
 		ResourceHandler * m_handler;
 		ContextResourcesCache * m_resources;
 		LayerLayoutStatesHandler m_images;
+		LayerLayoutStatesHandler m_initialImages;
 		AccessStateMap m_buffers;
 		std::vector< ImplicitTransition > m_implicitTransitions;
 		PassIndexArray m_state;
diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index b805b7f..9380361 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -111,6 +111,13 @@ namespace crg
 		}
 	}
 
+	void RecordContext::setInitialStates( LayerLayoutStatesHandler const & inputs
+		, RecordContext const & previous )
+	{
+		m_initialImages = inputs;
+		m_initialImages.addStates( previous.m_images );
+	}
+
 	void RecordContext::addStates( RecordContext const & data )
 	{
 		addResourcesStates( data );
@@ -161,6 +168,34 @@ namespace crg
 			, subresourceRange );
 	}
 
+	LayoutState RecordContext::resolveLayoutState( ImageViewId view )
+	{
+		auto const & range = view.data->info.subresourceRange;
+
+		for ( uint32_t layer = 0u; layer < range.layerCount; ++layer )
+		{
+			for ( uint32_t level = 0u; level < range.levelCount; ++level )
+			{
+				VkImageSubresourceRange const subresource{ range.aspectMask
+					, range.baseMipLevel + level
+					, 1u
+					, range.baseArrayLayer + layer
+					, 1u };
+
+				if ( getLayoutState( view.data->image, view.data->info.viewType, subresource ).layout == VK_IMAGE_LAYOUT_UNDEFINED )
+				{
+					if ( auto state = m_initialImages.getLayoutState( view.data->image, view.data->info.viewType, subresource );
+						state.layout != VK_IMAGE_LAYOUT_UNDEFINED )
+					{
+						setLayoutState( view.data->image, view.data->info.viewType, subresource, state );
+					}
+				}
+			}
+		}
+
+		return getLayoutState( view );
+	}
+
 	LayoutState RecordContext::getNextLayoutState( ImageViewId view )const
 	{
 		return m_nextImages.getLayoutState( view );
@@ -464,6 +499,8 @@ namespace crg
 			recContext.runImplicitTransition( commandBuffer
 				, index
 				, srcView );
+			recContext.resolveLayoutState( srcView );
+			recContext.resolveLayoutState( dstView );
 			auto & srcSubresource = srcView.data->info.subresourceRange;
 			auto & dstSubresource = dstView.data->info.subresourceRange;
 			VkImageCopy region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, 1u }
@@ -517,6 +554,8 @@ namespace crg
 			recContext.runImplicitTransition( commandBuffer
 				, index
 				, srcView );
+			recContext.resolveLayoutState( srcView );
+			recContext.resolveLayoutState( dstView );
 			auto & srcSubresource = srcView.data->info.subresourceRange;
 			auto & dstSubresource = dstView.data->info.subresourceRange;
 			VkImageBlit region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, 1u }
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 9f4e0c9..26c25c9 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -289,6 +289,7 @@ namespace crg
 		auto block( m_timer.start() );
 		m_states.clear();
 		RecordContext recordContext{ m_resources };
+		recordContext.setInitialStates( m_graph.m_inputs, m_graph.getFinalStates() );
 
 		for ( auto & dependency : m_graph.getDependencies() )
 		{
-- 
2.43.0


From 011b4939fdcc2cca5fb3f88da0c2f54d45d2f545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 14/54] fix: bring the outputs of the graph to their declared
 layouts

---
 include/RenderGraph/FrameGraph.hpp   | 14 ++++++++++++
 source/RenderGraph/FrameGraph.cpp    | 32 ++++++++++++++++++++++++++++
 source/RenderGraph/RunnableGraph.cpp |  1 +
 3 files changed, 47 insertions(+)

diff --git a/include/RenderGraph/FrameGraph.hpp b/include/RenderGraph/FrameGraph.hpp
index f41d695..954f401 100644
--- a/include/RenderGraph/FrameGraph.hpp
+++ b/include/RenderGraph/FrameGraph.hpp
@@ -130,8 +130,21 @@ namespace crg
 
 	private:
 		void registerFinalState( RecordContext const & context );
+		/**
+		*\brief
+		*	Brings the outputs used by the recorded frame to their declared layouts.
+		*/
+		void recordOutputTransitions( RecordContext & context
+			, VkCommandBuffer commandBuffer )const;
 
 	private:
+		struct OutputRange
+		{
+			ImageId image;
+			VkImageViewType viewType;
+			VkImageSubresourceRange range;
+		};
+
 		ResourceHandler & m_handler;
 		std::string m_name;
 		FramePassGroupPtr m_defaultGroup;
@@ -144,5 +157,6 @@ namespace crg
 		FrameGraphArray m_depends;
 		LayerLayoutStatesHandler m_inputs;
 		LayerLayoutStatesHandler m_outputs;
+		std::vector< OutputRange > m_outputRanges;
 	};
 }
diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 5af3c81..9c1b776 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -304,6 +304,7 @@ namespace crg
 			, viewType
 			, range
 			, outputLayout );
+		m_outputRanges.push_back( { image, viewType, range } );
 	}
 
 	void FrameGraph::addOutput( ImageViewId view
@@ -336,6 +337,37 @@ namespace crg
 		return m_outputs.images;
 	}
 
+	void FrameGraph::recordOutputTransitions( RecordContext & context
+		, VkCommandBuffer commandBuffer )const
+	{
+		for ( auto const & output : m_outputRanges )
+		{
+			for ( uint32_t layer = 0u; layer < output.range.layerCount; ++layer )
+			{
+				for ( uint32_t level = 0u; level < output.range.levelCount; ++level )
+				{
+					VkImageSubresourceRange const subresource{ output.range.aspectMask
+						, output.range.baseMipLevel + level
+						, 1u
+						, output.range.baseArrayLayer + layer
+						, 1u };
+					auto const current = context.getLayoutState( output.image, output.viewType, subresource );
+					auto const wanted = getOutputLayoutState( output.image, output.viewType, subresource );
+
+					if ( current.layout != VK_IMAGE_LAYOUT_UNDEFINED
+						&& current.layout != wanted.layout )
+					{
+						context.memoryBarrier( commandBuffer
+							, output.image
+							, output.viewType
+							, subresource
+							, wanted );
+					}
+				}
+			}
+		}
+	}
+
 	void FrameGraph::registerFinalState( RecordContext const & context )
 	{
 		auto previousState = std::move( m_finalState );
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 26c25c9..d3cfbbe 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -340,6 +340,7 @@ namespace crg
 				++it;
 			}
 
+			m_graph.recordOutputTransitions( recordContext, m_commandBuffer );
 			m_timer.endPass( m_commandBuffer );
 			m_context.vkEndCommandBuffer( m_commandBuffer );
 		}
-- 
2.43.0


From d4ffca8c541e59b1d1918e469df45c8bd3ee8772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 15/54] fix: dispatch compute passes with the Y and Z group
 count callbacks

---
 source/RenderGraph/RunnablePasses/ComputePass.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index e872569..68e39ee 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -96,8 +96,8 @@ namespace crg
 		{
 			context->vkCmdDispatch( commandBuffer
 				, ( m_cpConfig.getGroupCountX ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountX )
-				, ( m_cpConfig.getGroupCountY ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountY )
-				, ( m_cpConfig.getGroupCountZ ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountZ ) );
+				, ( m_cpConfig.getGroupCountY ? ( *m_cpConfig.getGroupCountY )() : m_cpConfig.groupCountY )
+				, ( m_cpConfig.getGroupCountZ ? ( *m_cpConfig.getGroupCountZ )() : m_cpConfig.groupCountZ ) );
 		}
 
 		m_cpConfig.end( context, commandBuffer, index );
-- 
2.43.0


From 1cbf706ca438da29c28db444364ca72f9799eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 16/54] fix: don't leak the pipeline shared by the variants of
 a compute pass

---
 source/RenderGraph/RunnablePasses/ComputePass.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index 68e39ee..d36dc31 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -105,6 +105,11 @@ namespace crg
 
 	void ComputePass::doCreatePipeline( uint32_t index )
 	{
+		if ( m_pipeline.getPipeline( index ) )
+		{
+			return;
+		}
+
 		auto & program = m_pipeline.getProgram( index );
 		VkComputePipelineCreateInfo createInfo{ VK_STRUCTURE_TYPE_COMPUTE_PIPELINE_CREATE_INFO
 			, nullptr
-- 
2.43.0


From 79d7bea923a1e4965f56daee813d05d3de4fac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 17/54] fix: forget the images and views a cache has destroyed

---
 source/RenderGraph/ResourceHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index bada67f..86ddc86 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -572,6 +572,7 @@ namespace crg
 		if ( result )
 		{
 			m_handler.destroyImage( m_context, imageId );
+			m_images.erase( it );
 		}
 
 		return result;
@@ -585,6 +586,7 @@ namespace crg
 		if ( result )
 		{
 			m_handler.destroyImageView( m_context, viewId );
+			m_imageViews.erase( it );
 		}
 
 		return result;
-- 
2.43.0


From 156d77d31ec27c96337641cb8070a03e0e423b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 18/54] fix: own the image created along with the view of a
 cache

---
 source/RenderGraph/ResourceHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 86ddc86..6f3c447 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -554,6 +554,8 @@ namespace crg
 
 	VkImageView ContextResourcesCache::createImageView( ImageViewId const & view )
 	{
+		// The image may need to be created too, in which case this cache owns it.
+		createImage( view.data->image );
 		auto [result, created] = m_handler.createImageView( m_context, view );
 
 		if ( created )
-- 
2.43.0


From ca1be4780c9f445c4e6bec3c038f7ae675f2b187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 19/54] fix: destroy replaced pipelines once their own graph's
 submission has completed

---
 include/RenderGraph/RunnableGraph.hpp                | 10 ++++++++++
 source/RenderGraph/RunnableGraph.cpp                 |  3 +++
 source/RenderGraph/RunnablePasses/PipelineHolder.cpp |  2 +-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/RenderGraph/RunnableGraph.hpp b/include/RenderGraph/RunnableGraph.hpp
index 21383da..af93c16 100644
--- a/include/RenderGraph/RunnableGraph.hpp
+++ b/include/RenderGraph/RunnableGraph.hpp
@@ -137,9 +137,19 @@ namespace crg
 			return m_timer;
 		}
 
+		/**
+		*\brief
+		*	The objects to destroy once the last submission of this graph has completed.
+		*/
+		DeletionQueue & getDeletionQueue()noexcept
+		{
+			return m_deletionQueue;
+		}
+
 	private:
 		FrameGraph & m_graph;
 		GraphContext & m_context;
+		DeletionQueue m_deletionQueue;
 		ContextResourcesCache m_resources;
 		AttachmentTransitions m_transitions;
 		GraphNodePtrArray m_nodes;
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index d3cfbbe..9236b17 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -266,6 +266,8 @@ namespace crg
 
 	RunnableGraph::~RunnableGraph()noexcept
 	{
+		m_deletionQueue.clear( m_context );
+
 		if ( m_context.vkDestroySemaphore && m_semaphore )
 		{
 			crgUnregisterObject( m_context, m_semaphore );
@@ -387,6 +389,7 @@ namespace crg
 			, 1u
 			, &m_semaphore };
 		m_fence.reset();
+		m_deletionQueue.clear( m_context );
 		m_context.delQueue.clear( m_context );
 		m_context.vkQueueSubmit( queue
 			, 1u
diff --git a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
index c899604..8fc2515 100644
--- a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
@@ -213,7 +213,7 @@ namespace crg
 		if ( m_pipelines[index] )
 		{
 			auto pipeline = m_pipelines[index];
-			m_context.delQueue.push( [pipeline]( GraphContext & context )
+			m_graph.getDeletionQueue().push( [pipeline]( GraphContext & context )
 				{
 					crgUnregisterObject( context, pipeline );
 					context.vkDestroyPipeline( context.device
-- 
2.43.0


From 8452daa7238c38cf5196904cd17472ef56ebbc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 20/54] fix: mirror the inverted texture coordinates of the
 full-screen triangle within the viewport

---
 source/RenderGraph/ResourceHandler.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 6f3c447..89973ff 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -372,10 +372,11 @@ namespace crg
 					auto rangeV = 1.0;
 					auto minV = -rangeV;
 					auto maxV = minV + 2.0 * rangeV;
-					auto realMinU = float( config.invertU ? maxU : minU );
-					auto realMaxU = float( config.invertU ? minU : maxU );
-					auto realMinV = float( config.invertV ? maxV : minV );
-					auto realMaxV = float( config.invertV ? minV : maxV );
+					// The viewport is covered by the coordinates from 0 to 1, mirror them around its center.
+					auto realMinU = float( config.invertU ? rangeU - minU : minU );
+					auto realMaxU = float( config.invertU ? rangeU - maxU : maxU );
+					auto realMinV = float( config.invertV ? rangeV - minV : minV );
+					auto realMaxV = float( config.invertV ? rangeV - maxV : maxV );
 					std::array<reshdl::Quad::Vertex, 3u > vertexData
 					{ reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, -3.0f }, reshdl::Quad::Data{ realMinU, realMinV } }
 						, reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, +1.0f }, reshdl::Quad::Data{ realMinU, realMaxV } }
-- 
2.43.0


From 6f0ae422b6299f9ec8e326847db5000ffdcfe451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:59 +0000
Subject: [PATCH 21/54] fix: keep rebuilt render passes, framebuffers and
 pipelines until the last submission has completed

---
 .../RunnablePasses/PipelineHolder.hpp         |   3 +
 .../RunnablePasses/RenderPassHolder.hpp       |   1 +
 .../RunnablePasses/PipelineHolder.cpp         | 123 ++++++++++--------
 .../RunnablePasses/RenderPassHolder.cpp       |  20 ++-
 4 files changed, 95 insertions(+), 52 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/PipelineHolder.hpp b/include/RenderGraph/RunnablePasses/PipelineHolder.hpp
index 4955db0..51c4848 100644
--- a/include/RenderGraph/RunnablePasses/PipelineHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/PipelineHolder.hpp
@@ -5,6 +5,8 @@ See LICENSE file in root folder.
 
 #include "RenderGraph/RunnablePasses/PipelineConfig.hpp"
 
+#include <functional>
+
 namespace crg
 {
 	class PipelineHolder
@@ -65,6 +67,7 @@ namespace crg
 		}
 
 	private:
+		std::function< void( GraphContext & ) > doRelease()noexcept;
 		void doFillDescriptorBindings();
 		void doCreateDescriptorSetLayout();
 		void doCreatePipelineLayout();
diff --git a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
index 5b6fa4b..9fd5687 100644
--- a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
@@ -94,6 +94,7 @@ namespace crg
 			PipelineState nextState;
 
 			void cleanup( crg::GraphContext & context )noexcept;
+			void release()noexcept;
 		};
 
 		FramePass const & m_pass;
diff --git a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
index 8fc2515..4d2524a 100644
--- a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
@@ -7,6 +7,7 @@ See LICENSE file in root folder.
 #include "RenderGraph/RunnableGraph.hpp"
 #include "RenderGraph/RunnablePasses/RenderPass.hpp"
 
+#include <algorithm>
 #include <cassert>
 
 namespace crg
@@ -41,7 +42,7 @@ namespace crg
 
 	PipelineHolder::~PipelineHolder()noexcept
 	{
-		cleanup();
+		doRelease()( m_context );
 	}
 
 	void PipelineHolder::initialise()
@@ -57,56 +58,8 @@ namespace crg
 
 	void PipelineHolder::cleanup()noexcept
 	{
-		m_descriptorBindings.clear();
-
-		for ( auto & descriptorSet : m_descriptorSets )
-		{
-			if ( descriptorSet.set )
-			{
-				crgUnregisterObject( m_context, descriptorSet.set );
-				descriptorSet.writes.clear();
-				descriptorSet.set = {};
-			}
-		}
-
-		if ( m_descriptorSetPool )
-		{
-			crgUnregisterObject( m_context, m_descriptorSetPool );
-			m_context.vkDestroyDescriptorPool( m_context.device
-				, m_descriptorSetPool
-				, m_context.allocator );
-			m_descriptorSetPool = {};
-		}
-
-		for ( auto & pipeline : m_pipelines )
-		{
-			if ( pipeline != VkPipeline{} )
-			{
-				crgUnregisterObject( m_context, pipeline );
-				m_context.vkDestroyPipeline( m_context.device
-					, pipeline
-					, m_context.allocator );
-				pipeline = {};
-			}
-		}
-
-		if ( m_pipelineLayout )
-		{
-			crgUnregisterObject( m_context, m_pipelineLayout );
-			m_context.vkDestroyPipelineLayout( m_context.device
-				, m_pipelineLayout
-				, m_context.allocator );
-			m_pipelineLayout = {};
-		}
-
-		if ( m_descriptorSetLayout )
-		{
-			crgUnregisterObject( m_context, m_descriptorSetLayout );
-			m_context.vkDestroyDescriptorSetLayout( m_context.device
-				, m_descriptorSetLayout
-				, m_context.allocator );
-			m_descriptorSetLayout = {};
-		}
+		// The last submission may still be using them.
+		m_graph.getDeletionQueue().push( doRelease() );
 	}
 
 	VkPipelineShaderStageCreateInfoArray const & PipelineHolder::getProgram( uint32_t index )
@@ -294,6 +247,74 @@ namespace crg
 			, nullptr );
 	}
 
+	std::function< void( GraphContext & ) > PipelineHolder::doRelease()noexcept
+	{
+		std::vector< VkDescriptorSet > sets;
+
+		for ( auto & descriptorSet : m_descriptorSets )
+		{
+			if ( descriptorSet.set )
+			{
+				sets.push_back( descriptorSet.set );
+				descriptorSet.writes.clear();
+				descriptorSet.set = {};
+			}
+		}
+
+		auto pipelines = m_pipelines;
+		auto pool = m_descriptorSetPool;
+		auto pipelineLayout = m_pipelineLayout;
+		auto setLayout = m_descriptorSetLayout;
+		std::fill( m_pipelines.begin(), m_pipelines.end(), VkPipeline{} );
+		m_descriptorBindings.clear();
+		m_descriptorSetPool = {};
+		m_pipelineLayout = {};
+		m_descriptorSetLayout = {};
+
+		return [sets, pipelines, pool, pipelineLayout, setLayout]( GraphContext & context )
+		{
+			for ( auto & set : sets )
+			{
+				crgUnregisterObject( context, set );
+			}
+
+			if ( pool )
+			{
+				crgUnregisterObject( context, pool );
+				context.vkDestroyDescriptorPool( context.device
+					, pool
+					, context.allocator );
+			}
+
+			for ( auto & pipeline : pipelines )
+			{
+				if ( pipeline != VkPipeline{} )
+				{
+					crgUnregisterObject( context, pipeline );
+					context.vkDestroyPipeline( context.device
+						, pipeline
+						, context.allocator );
+				}
+			}
+
+			if ( pipelineLayout )
+			{
+				crgUnregisterObject( context, pipelineLayout );
+				context.vkDestroyPipelineLayout( context.device
+					, pipelineLayout
+					, context.allocator );
+			}
+
+			if ( setLayout )
+			{
+				crgUnregisterObject( context, setLayout );
+				context.vkDestroyDescriptorSetLayout( context.device
+					, setLayout
+					, context.allocator );
+			}
+		};
+	}
+
 	void PipelineHolder::doFillDescriptorBindings()
 	{
 		m_descriptorBindings.clear();
diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 4d2b5f2..18db7e2 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -146,6 +146,14 @@ namespace crg
 		}
 	}
 
+	void RenderPassHolder::PassData::release()noexcept
+	{
+		attaches.clear();
+		clearValues.clear();
+		frameBuffer = {};
+		renderPass = {};
+	}
+
 	//*********************************************************************************************
 
 	RenderPassHolder::RenderPassHolder( FramePass const & pass
@@ -192,7 +200,17 @@ namespace crg
 			return false;
 		}
 
-		data.cleanup( m_context );
+
+		if ( data.renderPass )
+		{
+			// The last submission may still be using the replaced ones.
+			m_graph.getDeletionQueue().push( [replaced = data]( GraphContext & graphContext )mutable
+				{
+					replaced.cleanup( graphContext );
+				} );
+		}
+
+		data.release();
 		doCreateRenderPass( context
 			, entries
 			, previousState
-- 
2.43.0


From c7a794ab4f7e1c6445ac2431d5758c894accc30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 22/54] fix: quad and mesh passes without a configured render
 size use the extent of their attachments

---
 .../RenderGraph/RunnablePasses/RenderPassHolder.hpp  |  7 +++++++
 .../RenderGraph/RunnablePasses/RenderQuadHolder.hpp  |  5 +++++
 source/RenderGraph/RunnablePasses/RenderMesh.cpp     | 12 +++++++++++-
 source/RenderGraph/RunnablePasses/RenderQuad.cpp     | 12 +++++++++++-
 4 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
index 9fd5687..c386f6b 100644
--- a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
@@ -52,6 +52,13 @@ namespace crg
 			return m_size;
 		}
 
+		VkExtent2D const & getRenderSize( uint32_t index )const
+		{
+			return ( m_size.width && m_size.height )
+				? m_size
+				: getRenderArea( index ).extent;
+		}
+
 		VkRect2D const & getRenderArea( uint32_t index )const
 		{
 			return m_passes[index].renderArea;
diff --git a/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp b/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp
index 7630f46..bd40b38 100644
--- a/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp
@@ -37,6 +37,11 @@ namespace crg
 		CRG_API uint32_t getPassIndex()const;
 		CRG_API bool isEnabled()const;
 
+		VkExtent2D const & getRenderSize()const
+		{
+			return m_renderSize;
+		}
+
 		VkPipelineVertexInputStateCreateInfo const & getInputState()const
 		{
 			return m_vertexBuffer->inputState;
diff --git a/source/RenderGraph/RunnablePasses/RenderMesh.cpp b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
index c719f84..cc1d0b3 100644
--- a/source/RenderGraph/RunnablePasses/RenderMesh.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
@@ -52,7 +52,17 @@ namespace crg
 		if ( m_renderPass.initialise( context, *this, index ) )
 		{
 			m_renderMesh.cleanup();
-			m_renderMesh.initialise( m_renderPass.getRenderSize()
+			m_renderMesh.initialise( m_renderPass.getRenderSize( index )
+				, m_renderPass.getRenderPass( index )
+				, m_renderPass.createBlendState()
+				, index );
+		}
+		else if ( auto renderSize = m_renderPass.getRenderSize( index );
+			renderSize.width != m_renderMesh.getRenderSize().width
+			|| renderSize.height != m_renderMesh.getRenderSize().height )
+		{
+			// The pipeline states have been prepared for another variant of the pass.
+			m_renderMesh.resetRenderPass( renderSize
 				, m_renderPass.getRenderPass( index )
 				, m_renderPass.createBlendState()
 				, index );
diff --git a/source/RenderGraph/RunnablePasses/RenderQuad.cpp b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
index 66259b3..4088a0b 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuad.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
@@ -51,7 +51,17 @@ namespace crg
 	{
 		if ( m_renderPass.initialise( context, *this, index ) )
 		{
-			m_renderQuad.initialise( m_renderPass.getRenderSize()
+			m_renderQuad.initialise( m_renderPass.getRenderSize( index )
+				, m_renderPass.getRenderPass( index )
+				, m_renderPass.createBlendState()
+				, index );
+		}
+		else if ( auto renderSize = m_renderPass.getRenderSize( index );
+			renderSize.width != m_renderQuad.getRenderSize().width
+			|| renderSize.height != m_renderQuad.getRenderSize().height )
+		{
+			// The pipeline states have been prepared for another variant of the pass.
+			m_renderQuad.resetRenderPass( renderSize
 				, m_renderPass.getRenderPass( index )
 				, m_renderPass.createBlendState()
 				, index );
-- 
2.43.0


From 1b5650b07d029884f103e0c574548ad3f25e1ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 23/54] fix: the render area follows the attachments of the
 recorded variant, and is never empty

---
 source/RenderGraph/RunnablePasses/RenderPassHolder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 18db7e2..7d07ee3 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -438,12 +438,12 @@ namespace crg
 				|| attach.isDepthAttach()
 				|| attach.isStencilAttach() )
 			{
-				auto view = attach.view();
+				auto view = attach.view( index );
 				m_passes[index].attachments.push_back( &attach );
 				width = std::max( width
-					, view.data->image.data->info.extent.width >> view.data->info.subresourceRange.baseMipLevel );
+					, std::max( 1u, view.data->image.data->info.extent.width >> view.data->info.subresourceRange.baseMipLevel ) );
 				height = std::max( height
-					, view.data->image.data->info.extent.height >> view.data->info.subresourceRange.baseMipLevel );
+					, std::max( 1u, view.data->image.data->info.extent.height >> view.data->info.subresourceRange.baseMipLevel ) );
 				m_layers = std::max( m_layers
 					, view.data->info.subresourceRange.layerCount );
 			}
-- 
2.43.0


From 1e2d111c1cf63cb54e9326d59fd7f78b4cb5a060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 24/54] fix: undefined stencil contents are not loaded by
 render passes

---
 source/RenderGraph/RunnablePasses/RenderPassHolder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 7d07ee3..0027f07 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -37,7 +37,9 @@ namespace crg
 					? VK_ATTACHMENT_LOAD_OP_CLEAR
 					: attach.getLoadOp() )
 				, attach.getStoreOp()
-				, attach.getStencilLoadOp()
+				, ( ( initialLayout.layout == VK_IMAGE_LAYOUT_UNDEFINED && attach.getStencilLoadOp() == VK_ATTACHMENT_LOAD_OP_LOAD )
+					? VK_ATTACHMENT_LOAD_OP_CLEAR
+					: attach.getStencilLoadOp() )
 				, attach.getStencilStoreOp()
 				, initialLayout.layout
 				, finalLayout.layout } );
-- 
2.43.0


From ccb2e64fad18f27becf5b04405c409f2c0b65838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 25/54] fix: blit regions end at their offset plus their size

---
 source/RenderGraph/RecordContext.cpp            |  4 ++--
 source/RenderGraph/RunnablePasses/ImageBlit.cpp | 11 +++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 9380361..ae609a2 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -560,10 +560,10 @@ namespace crg
 			auto & dstSubresource = dstView.data->info.subresourceRange;
 			VkImageBlit region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, 1u }
 				, { VkOffset3D{ srcOffset.x, srcOffset.y, 0u }
-					, VkOffset3D{ int32_t( srcExtent.width ), int32_t( srcExtent.height ), 1 } }
+					, VkOffset3D{ srcOffset.x + int32_t( srcExtent.width ), srcOffset.y + int32_t( srcExtent.height ), 1 } }
 				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, 1u }
 				, { VkOffset3D{ dstOffset.x, dstOffset.y, 0u }
-					, VkOffset3D{ int32_t( dstExtent.width ), int32_t( dstExtent.height ), 1 } } };
+					, VkOffset3D{ dstOffset.x + int32_t( dstExtent.width ), dstOffset.y + int32_t( dstExtent.height ), 1 } } };
 			recContext.memoryBarrier( commandBuffer
 				, srcView.data->image
 				, srcView.data->info.viewType
diff --git a/source/RenderGraph/RunnablePasses/ImageBlit.cpp b/source/RenderGraph/RunnablePasses/ImageBlit.cpp
index f6de0e2..067be4a 100644
--- a/source/RenderGraph/RunnablePasses/ImageBlit.cpp
+++ b/source/RenderGraph/RunnablePasses/ImageBlit.cpp
@@ -21,6 +21,13 @@ namespace crg
 				, range.baseArrayLayer
 				, range.layerCount };
 		}
+
+		static VkOffset3D getEnd( VkOffset3D const & offset, VkExtent3D const & size )
+		{
+			return VkOffset3D{ offset.x + int32_t( size.width )
+				, offset.y + int32_t( size.height )
+				, offset.z + int32_t( size.depth ) };
+		}
 	}
 
 	ImageBlit::ImageBlit( FramePass const & pass
@@ -61,9 +68,9 @@ namespace crg
 		auto srcImage{ m_graph.createImage( srcAttach.data->image ) };
 		auto dstImage{ m_graph.createImage( dstAttach.data->image ) };
 		VkImageBlit blitRegion{ imgBlit::convert( srcAttach.data->info.subresourceRange )
-			, { m_srcOffset, VkOffset3D{ int32_t( m_srcSize.width ), int32_t( m_srcSize.height ), int32_t( m_srcSize.depth ) } }
+			, { m_srcOffset, imgBlit::getEnd( m_srcOffset, m_srcSize ) }
 			, imgBlit::convert( dstAttach.data->info.subresourceRange )
-			, { m_dstOffset, VkOffset3D{ int32_t( m_dstSize.width ), int32_t( m_dstSize.height ), int32_t( m_dstSize.depth ) } } };
+			, { m_dstOffset, imgBlit::getEnd( m_dstOffset, m_dstSize ) } };
 		context->vkCmdBlitImage( commandBuffer
 			, srcImage
 			, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
-- 
2.43.0


From 35a81518630e2f3e5a17b9d1f0218e4523698c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 26/54] fix: buffer/image copies start at the offset of the
 declared buffer range

---
 source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp | 3 ++-
 source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp b/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp
index db2c985..6f3c113 100644
--- a/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp
+++ b/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp
@@ -51,10 +51,11 @@ namespace crg
 	{
 		auto dstAttach{ m_pass.images.back().view( index ) };
 		auto srcBuffer{ m_pass.buffers.front().buffer( index ) };
+		auto & srcBufferRange{ m_pass.buffers.front().getBufferRange() };
 		auto dstImage{ m_graph.createImage( dstAttach.data->image ) };
 		// Copy source to target.
 		auto range = bufToImg::convert( dstAttach.data->info.subresourceRange );
-		VkBufferImageCopy copyRegion{ 0ULL
+		VkBufferImageCopy copyRegion{ srcBufferRange.offset
 			, 0u
 			, 0u
 			, range
diff --git a/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp b/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp
index b2e167e..1482d87 100644
--- a/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp
+++ b/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp
@@ -51,10 +51,11 @@ namespace crg
 	{
 		auto srcAttach{ m_pass.images.back().view( index ) };
 		auto dstBuffer{ m_pass.buffers.front().buffer( index ) };
+		auto & dstBufferRange{ m_pass.buffers.front().getBufferRange() };
 		auto srcImage{ m_graph.createImage( srcAttach.data->image ) };
 		// Copy source to target.
 		auto range = imToBuf::convert( srcAttach.data->info.subresourceRange );
-		VkBufferImageCopy copyRegion{ 0ULL
+		VkBufferImageCopy copyRegion{ dstBufferRange.offset
 			, 0u
 			, 0u
 			, range
-- 
2.43.0


From e44e03dc2c860b559682b8ed5233fd31ad10bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 27/54] fix: mip generation of a single level leaves it in the
 next layout

---
 source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp b/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
index 51660dd..db7a1fa 100644
--- a/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
+++ b/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
@@ -97,6 +97,16 @@ namespace crg
 					, VK_ACCESS_TRANSFER_READ_BIT
 					, VK_PIPELINE_STAGE_TRANSFER_BIT } );
 
+			if ( mipLevels <= 1u )
+			{
+				// No level to generate, transition the only one to wanted output layout
+				context.memoryBarrier( commandBuffer
+					, imageId
+					, mipSubRange
+					, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
+					, nextLayoutState );
+			}
+
 			// Copy down mips
 			while ( ++mipSubRange.baseMipLevel < mipLevels )
 			{
-- 
2.43.0


From 04a5d665b80bf1e12b8ad0aa5fde6b6ec480879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 28/54] fix: a pass using several images is the next user of
 each of them

---
 source/RenderGraph/RunnableGraph.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 9236b17..fd7a544 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -94,19 +94,20 @@ namespace crg
 					nextPass.isEnabled() )
 				{
 					auto & nextLayouts = nextPass.getImageLayouts();
-					LayerLayoutStates layoutStates;
-					auto currIt = std::find_if( currentLayouts.begin()
-						, currentLayouts.end()
-						, [&nextLayouts, &layoutStates]( LayerLayoutStatesMap::value_type const & lookup )
-						{
-							layoutStates = mergeRanges( nextLayouts, lookup );
-							return !layoutStates.empty();
-						} );
+					auto currIt = currentLayouts.begin();
 
-					if ( currIt != currentLayouts.end() )
+					while ( currIt != currentLayouts.end() )
 					{
-						result.try_emplace( currIt->first, layoutStates );
-						currentLayouts.erase( currIt );
+						if ( auto layoutStates = mergeRanges( nextLayouts, *currIt );
+							!layoutStates.empty() )
+						{
+							result.try_emplace( currIt->first, std::move( layoutStates ) );
+							currIt = currentLayouts.erase( currIt );
+						}
+						else
+						{
+							++currIt;
+						}
 					}
 				}
 				
-- 
2.43.0


From bd6bc38e6a016cf6f67373c5aa40cce9da0cb228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 29/54] fix: each connection to a signal has its own slot index

---
 include/RenderGraph/Signal.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/RenderGraph/Signal.hpp b/include/RenderGraph/Signal.hpp
index 3e4d3ca..97defee 100644
--- a/include/RenderGraph/Signal.hpp
+++ b/include/RenderGraph/Signal.hpp
@@ -170,7 +170,7 @@ namespace crg
 		*/
 		my_connection connect( Function function )
 		{
-			uint32_t index = uint32_t( m_slots.size() ) + 1u;
+			uint32_t index = ++m_lastIndex;
 			m_slots.emplace( index, function );
 			return my_connection{ index, *this };
 		}
@@ -278,6 +278,7 @@ namespace crg
 
 	private:
 		std::map< uint32_t, Function > m_slots;
+		uint32_t m_lastIndex{};
 		std::set< my_connection_ptr > m_connections;
 		std::recursive_mutex m_mutex;
 	};
-- 
2.43.0


From 98aba11ffb04ba4cfb138593da2c3711b2419854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 30/54] fix: signals call each connected slot once with
 unaltered arguments, whatever the slots do

---
 include/RenderGraph/Signal.hpp | 62 +++++++++++++++-------------------
 1 file changed, 27 insertions(+), 35 deletions(-)

diff --git a/include/RenderGraph/Signal.hpp b/include/RenderGraph/Signal.hpp
index 97defee..f607999 100644
--- a/include/RenderGraph/Signal.hpp
+++ b/include/RenderGraph/Signal.hpp
@@ -7,6 +7,7 @@ See LICENSE file in root folder
 #include <functional>
 #include <set>
 #include <map>
+#include <vector>
 #pragma warning( push )
 #pragma warning( disable: 4365 )
 #pragma warning( disable: 5262 )
@@ -180,15 +181,10 @@ namespace crg
 		*/
 		void operator()()const
 		{
-			auto it = m_slots.begin();
-			size_t size = m_slots.size();
-			size_t index = 0u;
-
-			while ( it != m_slots.end() )
-			{
-				it->second();
-				adjustSlots( size, index, it );
-			}
+			emitSlots( []( Function const & slot )
+				{
+					slot();
+				} );
 		}
 		/**
 		*\brief
@@ -199,15 +195,10 @@ namespace crg
 		template< typename ... Params >
 		void operator()( Params && ... params )const
 		{
-			auto it = m_slots.begin();
-			size_t size = m_slots.size();
-			size_t index = 0u;
-
-			while ( it != m_slots.end() )
-			{
-				it->second( std::forward< Params >( params )... );
-				adjustSlots( size, index, it );
-			}
+			emitSlots( [&params...]( Function const & slot )
+				{
+					slot( params... );
+				} );
 		}
 
 	private:
@@ -251,28 +242,29 @@ namespace crg
 		}
 		/**
 		*\brief
-		*	Adjusts returned slot iterator.
-		*\param[in,out] size
-		*	The expected size, receives the real size.
-		*\param[in,out] index
-		*	The current iteration index.
+		*	Calls each function connected when the emission starts, unless it is disconnected before its turn.
+		*\param[in] call
+		*	Calls one function.
 		*/
-		template< typename IterT >
-		void adjustSlots( size_t & size
-			, size_t & index
-			, IterT & it )const noexcept
+		template< typename CallT >
+		void emitSlots( CallT const & call )const
 		{
-			if ( size != m_slots.size() )
+			std::vector< uint32_t > indices;
+			indices.reserve( m_slots.size() );
+
+			for ( auto const & [index, _] : m_slots )
 			{
-				// Slots changed by the slot itself.
-				size = m_slots.size();
-				it = m_slots.begin();
-				std::advance( it, index );
+				indices.push_back( index );
 			}
-			else
+
+			for ( auto index : indices )
 			{
-				++index;
-				++it;
+				if ( auto it = m_slots.find( index ); it != m_slots.end() )
+				{
+					// Copied, since the function may disconnect itself.
+					auto slot = it->second;
+					call( slot );
+				}
 			}
 		}
 
-- 
2.43.0


From 069c060638add04bdb02ec40c20013a5cf9af7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 31/54] fix: the smallest mip levels of 3D images still have
 one slice

---
 source/RenderGraph/FrameGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 9c1b776..d679df3 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -666,7 +666,7 @@ namespace crg
 				|| range.levelCount == image.data->info.mipLevels ) )
 		{
 			result.baseArrayLayer = 0u;
-			result.layerCount = getExtent( image ).depth >> range.baseMipLevel;
+			result.layerCount = std::max( 1u, getExtent( image ).depth >> range.baseMipLevel );
 		}
 
 		return result;
-- 
2.43.0


From ce4204cab9ada4fd651ebfbb9ba2084842766475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:13 +0000
Subject: [PATCH 32/54] fix: transitions compare the layers of both views

the layer range of the reader was compared with the layer count of the writer
---
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index e232e5c..7d11897 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -321,7 +321,7 @@ namespace crg::builder
 				&& areIntersecting( lhs.baseArrayLayer
 					, lhs.layerCount
 					, rhs.baseArrayLayer
-					, lhs.layerCount );
+					, rhs.layerCount );
 		}
 
 		static bool areOverlapping( ImageViewData const & lhs
-- 
2.43.0


From bd529a338df4640ebaf76c2b1d825a0c69719bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:13 +0000
Subject: [PATCH 33/54] fix: no transition between attachments which share
 nothing

attachments were grouped by overlap with a common view, and related to each other even when disjoint
---
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index 7d11897..e562f91 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -651,7 +651,8 @@ namespace crg::builder
 			, FramePassDependencies & outputTransitions
 			, AttachmentTransitions & allTransitions )
 		{
-			if ( inputAttach.pass->dependsOn( *outputAttach.pass
+			if ( areOverlapping< DataT >( inputAttach, outputAttach )
+				&& inputAttach.pass->dependsOn( *outputAttach.pass
 				, AttachDataTraitsT< DataT >::getOutput( inputAttach, outputAttach )
 				, cache ) )
 			{
-- 
2.43.0


From 958aa2a60c613be4fecc39a6fc40896bb9364292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 34/54] fix: transfer buffers take part in the transitions

Copies from and to buffers were left out of the transition graph, and reads of storage buffers were taken for writes.
---
 source/RenderGraph/FramePass.cpp                    | 6 ++++--
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/FramePass.cpp b/source/RenderGraph/FramePass.cpp
index ea3994a..298ec6f 100644
--- a/source/RenderGraph/FramePass.cpp
+++ b/source/RenderGraph/FramePass.cpp
@@ -120,7 +120,8 @@ namespace crg
 				, pass.buffers.end()
 				, [&buffer]( Attachment const & lookup )
 				{
-					return lookup.isStorageBuffer()
+					return lookup.isOutput()
+						&& ( lookup.isStorageBuffer() || lookup.isTransferBuffer() )
 						&& lookup.bufferAttach.buffer == buffer;
 				} );
 
@@ -134,7 +135,8 @@ namespace crg
 				, pass.buffers.end()
 				, [&buffer]( Attachment const & lookup )
 				{
-					return lookup.isStorageBuffer()
+					return lookup.isInput()
+						&& ( lookup.isStorageBuffer() || lookup.isTransferBuffer() )
 						&& lookup.bufferAttach.buffer == buffer;
 				} );
 
diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index e562f91..64c6b3a 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -157,14 +157,14 @@ namespace crg::builder
 			static bool isInput( Attachment const & attach )
 			{
 				return attach.isInput()
-					&& ( attach.isStorageBuffer() || attach.isUniformBuffer() || attach.isTransitionBuffer()
+					&& ( attach.isStorageBuffer() || attach.isUniformBuffer() || attach.isTransitionBuffer() || attach.isTransferBuffer()
 						|| attach.isStorageBufferView() || attach.isUniformBufferView() || attach.isTransitionBufferView() );
 			}
 
 			static bool isOutput( Attachment const & attach )
 			{
 				return attach.isOutput()
-					&& ( attach.isStorageBuffer() || attach.isStorageBufferView() );
+					&& ( attach.isStorageBuffer() || attach.isStorageBufferView() || attach.isTransferBuffer() );
 			}
 		};
 
-- 
2.43.0


From d6ad045d4e144e371f81af10e7a4c426283f017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 35/54] fix: an attachment made from a view and an attachment
 has this view

The view was ignored.
---
 source/RenderGraph/Attachment.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index c3484b4..062c3fd 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -443,6 +443,7 @@ namespace crg
 		, bufferAttach{ origin.bufferAttach }
 		, flags{ origin.flags }
 	{
+		imageAttach.views = { std::move( view ) };
 	}
 
 	Attachment::Attachment( ImageViewId view )
-- 
2.43.0


From 532ecbe5f62aa3b04e9e3cba16fbd74f3845e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 36/54] fix: merged views have the aspects of all their sources

---
 source/RenderGraph/FramePass.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RenderGraph/FramePass.cpp b/source/RenderGraph/FramePass.cpp
index 298ec6f..2ef5f50 100644
--- a/source/RenderGraph/FramePass.cpp
+++ b/source/RenderGraph/FramePass.cpp
@@ -564,6 +564,7 @@ namespace crg
 			else
 			{
 				assert( data.image == view.data->image );
+				data.info.subresourceRange.aspectMask |= view.data->info.subresourceRange.aspectMask;
 
 				if ( mergeMipLevels )
 				{
-- 
2.43.0


From 8e08f74accd4d8036f82a3fe97d8d264e8de0dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 37/54] fix: dependency caches tell all buffers apart

Their keys kept 32 bits of the buffer handle only.
---
 .../RenderGraph/FrameGraphPrerequisites.hpp   |  2 +-
 source/RenderGraph/FramePass.cpp              | 30 ++++---------------
 2 files changed, 7 insertions(+), 25 deletions(-)

diff --git a/include/RenderGraph/FrameGraphPrerequisites.hpp b/include/RenderGraph/FrameGraphPrerequisites.hpp
index faa5cf9..04bc2b0 100644
--- a/include/RenderGraph/FrameGraphPrerequisites.hpp
+++ b/include/RenderGraph/FrameGraphPrerequisites.hpp
@@ -68,7 +68,7 @@ namespace crg
 
 	using ImageId = Id< ImageData >;
 	using ImageViewId = Id< ImageViewData >;
-	using DependencyCache = std::unordered_map< size_t, bool >;
+	using DependencyCache = std::map< std::pair< uint32_t, uint64_t >, bool >;
 	using PassDependencyCache = std::unordered_map< FramePass const *, DependencyCache >;
 
 	using FramePassPtr = std::unique_ptr< FramePass >;
diff --git a/source/RenderGraph/FramePass.cpp b/source/RenderGraph/FramePass.cpp
index 2ef5f50..1a26924 100644
--- a/source/RenderGraph/FramePass.cpp
+++ b/source/RenderGraph/FramePass.cpp
@@ -157,34 +157,16 @@ namespace crg
 			return result.substr( index );
 		}
 
-		static size_t makeHash( FramePass const & pass
+		static DependencyCache::key_type makeKey( FramePass const & pass
 			, ImageViewId const & view )
 		{
-			if constexpr ( sizeof( size_t ) == sizeof( uint64_t ) )
-			{
-				return size_t( pass.id ) << 32u
-					| size_t( view.id );
-			}
-			else
-			{
-				return size_t( pass.id ) << 16u
-					| size_t( view.id );
-			}
+			return { pass.id, view.id };
 		}
 
-		static size_t makeHash( FramePass const & pass
+		static DependencyCache::key_type makeKey( FramePass const & pass
 			, Buffer const & buffer )
 		{
-			if constexpr ( sizeof( size_t ) == sizeof( uint64_t ) )
-			{
-				return size_t( pass.id ) << 32u
-					| ( ptrdiff_t( buffer.buffer() ) & 0xFFFFFFFF );
-			}
-			else
-			{
-				return size_t( pass.id ) << 16u
-					| ( ptrdiff_t( buffer.buffer() ) & 0x0000FFFF );
-			}
+			return { pass.id, uint64_t( buffer.buffer() ) };
 		}
 	}
 
@@ -206,7 +188,7 @@ namespace crg
 		, PassDependencyCache & cache )const
 	{
 		auto & passCache = cache.try_emplace( this ).first->second;
-		auto [rit, res] = passCache.emplace( fpass::makeHash( pass, view ), false );
+		auto [rit, res] = passCache.emplace( fpass::makeKey( pass, view ), false );
 
 		if ( res )
 		{
@@ -238,7 +220,7 @@ namespace crg
 		, PassDependencyCache & cache )const
 	{
 		auto & passCache = cache.try_emplace( this ).first->second;
-		auto [rit, res] = passCache.emplace( fpass::makeHash( pass, buffer ), false );
+		auto [rit, res] = passCache.emplace( fpass::makeKey( pass, buffer ), false );
 
 		if ( res )
 		{
-- 
2.43.0


From ed5a259abb5772754f799ab1e4c5a45a12ebb73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 38/54] fix: uniform buffers are accessed as such

Their access was the one of texel buffers.
---
 source/RenderGraph/Attachment.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index 062c3fd..1c8b600 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -141,10 +141,14 @@ namespace crg
 				result |= VK_ACCESS_TRANSFER_WRITE_BIT;
 			}
 		}
-		else
+		else if ( isUniformView() )
 		{
 			result |= VK_ACCESS_SHADER_READ_BIT;
 		}
+		else
+		{
+			result |= VK_ACCESS_UNIFORM_READ_BIT;
+		}
 
 		return result;
 	}
-- 
2.43.0


From d3a42e0ad5d6cc4157408a74f43ee3b919e8fd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 39/54] fix: reads of uniform buffers wait for the writes
 before them

No barrier was made for them.
---
 source/RenderGraph/RunnablePass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 2e22e89..527deaa 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -453,7 +453,7 @@ namespace crg
 			for ( auto & attach : m_pass.buffers )
 			{
 				if ( !attach.isNoTransition()
-					&& ( attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer() ) )
+					&& ( attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer() || attach.isUniformBuffer() ) )
 				{
 					auto & range = attach.getBufferRange();
 					auto buffer = attach.buffer( index );
-- 
2.43.0


From 612fd3c8b1966214419fee9bfc3371f6f6685677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 40/54] fix: separate depth and stencil layouts have an access
 and a stage

Transitions to them had an empty stage mask.
---
 source/RenderGraph/FrameGraph.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index d679df3..7d39728 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -449,9 +449,13 @@ namespace crg
 			result |= VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL:
 			result |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL:
+		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL:
 			result |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL:
@@ -556,6 +560,10 @@ namespace crg
 		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL:
 		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL:
 		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL:
 			result |= VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL:
-- 
2.43.0


From 4eaabbee57ca9afada0a56020df07791016fa8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 41/54] fix: transitions are exported once to a stream

The text of each group was written after the whole.
---
 source/RenderGraph/DotExport.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/DotExport.cpp b/source/RenderGraph/DotExport.cpp
index 1d314b5..1c4a929 100644
--- a/source/RenderGraph/DotExport.cpp
+++ b/source/RenderGraph/DotExport.cpp
@@ -847,9 +847,17 @@ namespace crg::dot
 	{
 		auto result = displayTransitions( value, config );
 
-		for ( auto const & [_, strm] : result )
+		if ( config.splitGroups )
+		{
+			for ( auto const & [_, strm] : result )
+			{
+				stream << strm.str();
+			}
+		}
+		else
 		{
-			stream << strm.str();
+			auto it = result.find( std::string{} );
+			stream << it->second.str();
 		}
 	}
 }
-- 
2.43.0


From 5062fb3019ac795a3f08621522007cee86a35801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 42/54] fix: groups with the same name are exported apart

The text of a group was repeated in the ones of its namesakes.
---
 source/RenderGraph/DotExport.cpp | 34 +++++++++++++++++---------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/source/RenderGraph/DotExport.cpp b/source/RenderGraph/DotExport.cpp
index 1c4a929..8709e67 100644
--- a/source/RenderGraph/DotExport.cpp
+++ b/source/RenderGraph/DotExport.cpp
@@ -315,17 +315,20 @@ namespace crg::dot
 					: result;
 			}
 
-			void write( DisplayResult & streams
+			std::string write( DisplayResult & streams
 				, std::stringstream const & global = std::stringstream{} )const
 			{
+				// The text of this group, with its children's: groups of different parents may share their name.
+				std::stringstream stream;
+
 				if ( m_config.splitGroups )
 				{
 					if ( m_group )
 					{
-						auto & stream = streams.try_emplace( m_group->getName() ).first->second;
-						stream << "digraph \"" << m_group->getName() << "\" {\n";
-						stream << m_stream.str();
-						stream << "}\n";
+						auto & groupStream = streams.try_emplace( m_group->getName() ).first->second;
+						groupStream << "digraph \"" << m_group->getName() << "\" {\n";
+						groupStream << m_stream.str();
+						groupStream << "}\n";
 					}
 
 					for ( auto & group : m_children )
@@ -335,8 +338,6 @@ namespace crg::dot
 				}
 				else
 				{
-					auto & stream = streams.try_emplace( m_group ? m_group->getName() : std::string{} ).first->second;
-
 					if ( m_group )
 					{
 						if ( m_config.withGroups )
@@ -375,32 +376,33 @@ namespace crg::dot
 
 					for ( auto & group : m_children )
 					{
-						group->write( streams );
-						stream << streams.find( group->getName() )->second.str();
+						stream << group->write( streams );
 					}
 
-					auto & stream2 = streams.try_emplace( m_group ? m_group->getName() : std::string{} ).first->second;
-
 					if ( m_config.withGroups )
 					{
-						stream2 << Indent{ -2 };
+						stream << Indent{ -2 };
 					}
 
-					stream2 << m_stream.str();
+					stream << m_stream.str();
 
 					if ( !m_group )
 					{
-						stream2 << global.str();
-						stream2 << "}\n";
+						stream << global.str();
+						stream << "}\n";
 					}
 					else
 					{
 						if ( m_config.withGroups )
 						{
-							stream2 << "}\n";
+							stream << "}\n";
 						}
 					}
+
+					streams.try_emplace( m_group ? m_group->getName() : std::string{} ).first->second << stream.str();
 				}
+
+				return stream.str();
 			}
 
 			std::string const & getName()const
-- 
2.43.0


From db92413af66f2d88810a3b9978762d99540b0bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 43/54] fix: a merged view is not one of its sources

Views were compared without their sources: a merged view was replaced with a view of the same subresources.
---
 include/RenderGraph/ImageViewData.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/RenderGraph/ImageViewData.hpp b/include/RenderGraph/ImageViewData.hpp
index 4e28351..e5467da 100644
--- a/include/RenderGraph/ImageViewData.hpp
+++ b/include/RenderGraph/ImageViewData.hpp
@@ -59,6 +59,7 @@ namespace crg
 	inline bool operator==( ImageViewData const & lhs, ImageViewData const & rhs )
 	{
 		return lhs.image == rhs.image
-			&& lhs.info == rhs.info;
+			&& lhs.info == rhs.info
+			&& lhs.source == rhs.source;
 	}
 }
-- 
2.43.0


From d7ae939510071b8cc2b25ddc738a3ac180b4315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 44/54] fix: views which swizzle their components differently
 are different

---
 include/RenderGraph/ImageViewData.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/RenderGraph/ImageViewData.hpp b/include/RenderGraph/ImageViewData.hpp
index e5467da..f90f27d 100644
--- a/include/RenderGraph/ImageViewData.hpp
+++ b/include/RenderGraph/ImageViewData.hpp
@@ -48,11 +48,20 @@ namespace crg
 			&& lhs.levelCount == rhs.levelCount;
 	}
 
+	inline bool operator==( VkComponentMapping const & lhs, VkComponentMapping const & rhs )
+	{
+		return lhs.r == rhs.r
+			&& lhs.g == rhs.g
+			&& lhs.b == rhs.b
+			&& lhs.a == rhs.a;
+	}
+
 	inline bool operator==( VkImageViewCreateInfo const & lhs, VkImageViewCreateInfo const & rhs )
 	{
 		return lhs.flags == rhs.flags
 			&& lhs.viewType == rhs.viewType
 			&& lhs.format == rhs.format
+			&& lhs.components == rhs.components
 			&& lhs.subresourceRange == rhs.subresourceRange;
 	}
 
-- 
2.43.0


From 491d01214f7a47cd3914a6b64018cb1e7ec67214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:28 +0000
Subject: [PATCH 45/54] fix: record the external transition itself, not the
 last one of its pass

---
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index 64c6b3a..6c62731 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -553,14 +553,14 @@ namespace crg::builder
 			{
 				ViewTransition transition{ attach.view(), Attachment::createDefault( attach.view() ), attach };
 				insertTransition( transition, cache, transitions.viewTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
 			else
 			{
 				ViewTransition transition{ attach.view(), attach, Attachment::createDefault( attach.view() ) };
 				insertTransition( transition, cache, transitions.viewTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
-
-			insertTransition( transitions.viewTransitions.back(), cache, allTransitions );
 		}
 
 		static void addRemainingDependency( Attachment const & attach
@@ -574,14 +574,14 @@ namespace crg::builder
 			{
 				BufferTransition transition{ attach.bufferAttach.buffer, Attachment::createDefault( attach.bufferAttach.buffer ), attach };
 				insertTransition( transition, cache, transitions.bufferTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
 			else
 			{
 				BufferTransition transition{ attach.bufferAttach.buffer, attach, Attachment::createDefault( attach.bufferAttach.buffer ) };
 				insertTransition( transition, cache, transitions.bufferTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
-
-			insertTransition( transitions.bufferTransitions.back(), cache, allTransitions );
 		}
 
 		static void addRemainingDependency( Attachment const & attach
-- 
2.43.0


From 147970e908436d2bd72c8f9eefcadbeeec9fb7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 46/54] fix: keep the initial layout asked for when
 subresources are transitioned one by one

---
 source/RenderGraph/RecordContext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index ae609a2..7b31575 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -318,7 +318,7 @@ namespace crg
 						, image
 						, viewType
 						, VkImageSubresourceRange{ range.aspectMask, range.baseMipLevel + level, 1u, range.baseArrayLayer + layer, 1u }
-						, VK_IMAGE_LAYOUT_UNDEFINED
+						, initialLayout
 						, wantedState
 						, force );
 				}
-- 
2.43.0


From e356680635286327cc34f305d9fb97d5c727c86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:41 +0000
Subject: [PATCH 47/54] fix: transition subresources in no known layout from an
 undefined one when recording a pass

---
 source/RenderGraph/RunnablePass.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 527deaa..3265954 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -414,7 +414,6 @@ namespace crg
 					{
 						context.memoryBarrier( commandBuffer
 							, view
-							, currentLayout.layout
 							, LayoutState{ VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } } );
 
 						if ( isColourFormat( getFormat( view ) ) )
@@ -437,15 +436,10 @@ namespace crg
 								, 1u
 								, &view.data->info.subresourceRange );
 						}
-
-						currentLayout.layout = VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
-						currentLayout.state.access = VK_ACCESS_TRANSFER_WRITE_BIT;
-						currentLayout.state.pipelineStage = VK_PIPELINE_STAGE_TRANSFER_BIT;
 					}
 
 					context.memoryBarrier( commandBuffer
 						, view
-						, currentLayout.layout
 						, needed );
 				}
 			}
-- 
2.43.0


From 378e73bef45a4fcfc08a28a95dd1d5ee4853318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:11 +0000
Subject: [PATCH 48/54] fix: track the whole of an attached view, when merged
 or made of layers in different layouts

---
 .../RunnablePasses/RenderPassHolder.hpp       |  14 ++-
 source/RenderGraph/RunnableGraph.cpp          |   9 +-
 .../RunnablePasses/RenderPassHolder.cpp       | 113 ++++++++++++++----
 3 files changed, 108 insertions(+), 28 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
index c386f6b..406bf9d 100644
--- a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
@@ -17,6 +17,15 @@ namespace crg
 			LayoutState output;
 		};
 
+		struct SubresourceState
+		{
+			ImageId image;
+			VkImageViewType viewType;
+			VkImageSubresourceRange range;
+			LayoutState state;
+			LayoutState wanted;
+		};
+
 	public:
 		RenderPassHolder( RenderPassHolder const & )noexcept = delete;
 		RenderPassHolder & operator=( RenderPassHolder const & )noexcept = delete;
@@ -79,6 +88,7 @@ namespace crg
 			, crg::RunnablePass const & runnable
 			, PipelineState & previousState
 			, PipelineState & nextState
+			, std::vector< SubresourceState > & transitions
 			, uint32_t passIndex )const;
 		void doCreateRenderPass( RecordContext & context
 			, std::vector< Entry > const & entries
@@ -97,6 +107,8 @@ namespace crg
 			std::vector< Attachment const * > attachments;
 			std::vector< VkClearValue > clearValues;
 			std::vector< Entry > attaches;
+			// The subresources to bring to their attachment's layout, before the next begin.
+			std::vector< SubresourceState > transitions;
 			PipelineState previousState;
 			PipelineState nextState;
 
@@ -109,7 +121,7 @@ namespace crg
 		RunnableGraph & m_graph;
 		VkExtent2D m_size;
 		std::vector< PassData > m_passes;
-		PassData const * m_currentPass{};
+		PassData * m_currentPass{};
 		VkPipelineColorBlendAttachmentStateArray m_blendAttachs;
 		uint32_t m_layers{};
 		uint32_t m_index{};
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index fd7a544..7830bf4 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -473,18 +473,21 @@ namespace crg
 		, crg::RunnablePass const & runnable
 		, ImageViewId view )const
 	{
-		auto result = context.getNextLayoutState( view );
+		auto & image = view.data->image;
+		auto viewType = view.data->info.viewType;
+		auto & range = view.data->info.subresourceRange;
+		auto result = context.getNextLayoutState( image, viewType, range );
 
 		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
 		{
 			// Next layout undefined means that there is no pass after this one in the graph.
-			result = getOutputLayoutState( view );
+			result = m_graph.getOutputLayoutState( image, viewType, range );
 		}
 
 		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
 		{
 			// Prevent from outputing a VK_IMAGE_LAYOUT_UNDEFINED anyway.
-			result = runnable.getLayoutState( view );
+			result = runnable.getLayoutState( resolveView( view, 0u ) );
 		}
 
 		return result;
diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 0027f07..87b6472 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -18,6 +18,17 @@ namespace crg
 
 	namespace rpHolder
 	{
+		// The whole view is attached, even when it has been merged from other ones.
+		static void setLayoutState( RecordContext & context
+			, ImageViewId view
+			, LayoutState const & layoutState )
+		{
+			context.setLayoutState( view.data->image
+				, view.data->info.viewType
+				, view.data->info.subresourceRange
+				, layoutState );
+		}
+
 		static VkAttachmentReference addAttach( RecordContext & context
 			, Attachment const & attach
 			, ImageViewId view
@@ -46,17 +57,7 @@ namespace crg
 			viewAttaches.push_back( { view, initialLayout, finalLayout } );
 			clearValues.push_back( attach.getClearValue() );
 
-			if ( view.data->source.empty() )
-			{
-				context.setLayoutState( view, finalLayout );
-			}
-			else
-			{
-				for ( auto & source : view.data->source )
-				{
-					context.setLayoutState( source, finalLayout );
-				}
-			}
+			setLayoutState( context, view, finalLayout );
 
 			return result;
 		}
@@ -188,11 +189,14 @@ namespace crg
 		auto & data = m_passes[passIndex];
 		auto previousState = context.getPrevPipelineState();
 		auto nextState = context.getNextPipelineState();
+		std::vector< SubresourceState > transitions;
 		auto entries = doListEntries( context
 			, runnable
 			, previousState
 			, nextState
+			, transitions
 			, passIndex );
+		data.transitions = std::move( transitions );
 
 		if ( data.renderPass
 			&& rpHolder::checkAttaches( data.attaches, entries )
@@ -242,10 +246,25 @@ namespace crg
 		m_index = index;
 		m_currentPass = &m_passes[m_index];
 
+		// Subresources which aren't in the layout the attachment starts from must be transitioned.
+		for ( auto & transition : m_currentPass->transitions )
+		{
+			context.setLayoutState( transition.image
+				, transition.viewType
+				, transition.range
+				, transition.state );
+			context.memoryBarrier( commandBuffer
+				, transition.image
+				, transition.viewType
+				, transition.range
+				, transition.wanted );
+		}
+
+		m_currentPass->transitions.clear();
+
 		for ( auto & attach : m_currentPass->attaches )
 		{
-			context.setLayoutState( resolveView( attach.view, m_index )
-				, attach.input );
+			rpHolder::setLayoutState( context, attach.view, attach.input );
 		}
 
 		auto beginInfo = getBeginInfo( m_index );
@@ -261,8 +280,7 @@ namespace crg
 
 		for ( auto & attach : m_currentPass->attaches )
 		{
-			context.setLayoutState( resolveView( attach.view, m_index )
-				, attach.output );
+			rpHolder::setLayoutState( context, attach.view, attach.output );
 		}
 
 		m_currentPass = nullptr;
@@ -272,6 +290,7 @@ namespace crg
 			, crg::RunnablePass const & runnable
 			, PipelineState & previousState
 			, PipelineState & nextState
+			, std::vector< SubresourceState > & transitions
 			, uint32_t passIndex )const
 	{
 		std::vector< Entry > result;
@@ -283,15 +302,62 @@ namespace crg
 				|| attach.isColourAttach() )
 			{
 				auto view = attach.view( passIndex );
-				auto resolved = resolveView( view, passIndex );
-				auto currentLayout = m_graph.getCurrentLayoutState( context, resolved );
-				auto nextLayout = m_graph.getNextLayoutState( context, runnable, resolved );
-				auto from = ( !attach.isInput()
-					? crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
-					: currentLayout );
+				auto & image = view.data->image;
+				auto const & range = view.data->info.subresourceRange;
+				auto viewType = view.data->info.viewType;
+				auto currentLayout = m_graph.getCurrentLayoutState( context, image, viewType, range );
+				auto nextLayout = m_graph.getNextLayoutState( context, runnable, view );
+				std::vector< SubresourceState > subresources;
+
+				for ( uint32_t layer = 0u; layer < range.layerCount; ++layer )
+				{
+					for ( uint32_t level = 0u; level < range.levelCount; ++level )
+					{
+						VkImageSubresourceRange subresource{ range.aspectMask, range.baseMipLevel + level, 1u, range.baseArrayLayer + layer, 1u };
+						subresources.push_back( { image
+							, viewType
+							, subresource
+							, context.getLayoutState( image, viewType, subresource )
+							, {} } );
+					}
+				}
+
 				// The attachment must wait for its own previous use, and its next use must wait for it.
-				rpHolder::addState( previousState, currentLayout );
+				for ( auto & subresource : subresources )
+				{
+					rpHolder::addState( previousState, subresource.state );
+				}
+
 				rpHolder::addState( nextState, nextLayout );
+				auto from = crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED );
+
+				if ( attach.isInput() )
+				{
+					from = currentLayout;
+
+					if ( std::any_of( subresources.begin()
+						, subresources.end()
+						, [&currentLayout]( SubresourceState const & lookup )
+						{
+							return lookup.state.layout != currentLayout.layout;
+						} ) )
+					{
+						// The attachment has only one initial layout.
+						from = { attach.getImageLayout( m_context.separateDepthStencilLayouts )
+							, { attach.getAccessMask(), attach.getPipelineStageFlags( false ) } };
+						rpHolder::addState( previousState, from );
+
+						for ( auto & subresource : subresources )
+						{
+							if ( subresource.state.layout != from.layout )
+							{
+								subresource.wanted = from;
+								transitions.push_back( subresource );
+							}
+						}
+					}
+				}
+
 				result.push_back( { view, from, nextLayout } );
 			}
 		}
@@ -321,11 +387,10 @@ namespace crg
 				|| attach.isColourAttach() )
 			{
 				auto view = attach.view( passIndex );
-				auto resolved = resolveView( view, passIndex );
 				auto const & from = entryIt->input;
 				auto const & nextLayout = entryIt->output;
 				++entryIt;
-				checkUndefinedInput( "RenderPass", attach, resolved, from.layout );
+				checkUndefinedInput( "RenderPass", attach, view, from.layout );
 
 				if ( attach.isDepthAttach() || attach.isStencilAttach() )
 				{
-- 
2.43.0


From 966adafe6b4788f0182d99c8c6ffc5ea314795d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:30 +0000
Subject: [PATCH 49/54] fix: release the semaphore and command buffer of a
 graph whose compilation fails

---
 include/RenderGraph/RunnableGraph.hpp |  3 +++
 source/RenderGraph/RunnableGraph.cpp  | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/RenderGraph/RunnableGraph.hpp b/include/RenderGraph/RunnableGraph.hpp
index af93c16..c642fd6 100644
--- a/include/RenderGraph/RunnableGraph.hpp
+++ b/include/RenderGraph/RunnableGraph.hpp
@@ -146,6 +146,9 @@ namespace crg
 			return m_deletionQueue;
 		}
 
+	private:
+		void doCleanup()noexcept;
+
 	private:
 		FrameGraph & m_graph;
 		GraphContext & m_context;
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 7830bf4..b0d447f 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -194,6 +194,12 @@ namespace crg
 			, { VK_STRUCTURE_TYPE_FENCE_CREATE_INFO, nullptr, VK_FENCE_CREATE_SIGNALED_BIT } }
 		, m_timer{ context, graph.getName() + "/Graph", TimerScope::eGraph, getTimerQueryPool(), getTimerQueryOffset() }
 	{
+		// Should anything fail, the destructor won't be called
+		auto undo = []( RunnableGraph * runnable )noexcept
+		{
+			runnable->doCleanup();
+		};
+		std::unique_ptr< RunnableGraph, decltype( undo ) > guard{ this, undo };
 		auto name = m_graph.getName() + "/Graph";
 
 		if ( m_context.vkCreateSemaphore )
@@ -263,9 +269,16 @@ namespace crg
 				pass->initialise( pass->getIndex() );
 			}
 		}
+
+		guard.release();
 	}
 
 	RunnableGraph::~RunnableGraph()noexcept
+	{
+		doCleanup();
+	}
+
+	void RunnableGraph::doCleanup()noexcept
 	{
 		m_deletionQueue.clear( m_context );
 
-- 
2.43.0


From 935e6ac9308952233a4f3afe6dac1105c8f34cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:30 +0000
Subject: [PATCH 50/54] fix: leave nothing behind when the creation of a
 resource fails, so that it can be tried again

---
 source/RenderGraph/ResourceHandler.cpp | 105 ++++++++++++++++---------
 1 file changed, 70 insertions(+), 35 deletions(-)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 89973ff..7cb6cc4 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -97,6 +97,41 @@ namespace crg
 				| ( ( config.invertV ? 0x01u : 0x00u ) << 2u ) };
 			return result;
 		}
+
+		static void destroyImage( GraphContext & context
+			, VkImage image
+			, VkDeviceMemory memory )
+		{
+			if ( context.vkFreeMemory && memory )
+			{
+				context.vkFreeMemory( context.device, memory, context.allocator );
+			}
+
+			if ( context.vkDestroyImage && image )
+			{
+				context.vkDestroyImage( context.device, image, context.allocator );
+			}
+		}
+
+		static void destroyVertexBuffer( GraphContext & context
+			, VertexBuffer const & vertexBuffer )
+		{
+			if ( context.vkFreeMemory && vertexBuffer.memory )
+			{
+				crgUnregisterObject( context, vertexBuffer.memory );
+				context.vkFreeMemory( context.device
+					, vertexBuffer.memory
+					, context.allocator );
+			}
+
+			if ( context.vkDestroyBuffer && vertexBuffer.buffer.buffer() )
+			{
+				crgUnregisterObject( context, vertexBuffer.buffer.buffer() );
+				context.vkDestroyBuffer( context.device
+					, vertexBuffer.buffer.buffer()
+					, context.allocator );
+			}
+		}
 	}
 
 	//*********************************************************************************************
@@ -186,6 +221,14 @@ namespace crg
 
 			if ( ins )
 			{
+				// Should anything fail, nothing must remain of that image
+				auto undo = [this, &context, &imageId]( std::pair< VkImage, VkDeviceMemory > * img )
+				{
+					reshdl::destroyImage( context, img->first, img->second );
+					m_images.erase( imageId );
+				};
+				std::unique_ptr< std::pair< VkImage, VkDeviceMemory >, decltype( undo ) > guard{ &it->second, undo };
+
 				// Create image
 				auto createInfo = reshdl::convert( *imageId.data );
 				auto res = context.vkCreateImage( context.device
@@ -225,6 +268,8 @@ namespace crg
 					checkVkResult( res, "Image memory binding" );
 					created = true;
 				}
+
+				guard.release();
 			}
 
 			result = { it->second.first, created };
@@ -246,6 +291,12 @@ namespace crg
 
 			if ( ins )
 			{
+				// Should anything fail, nothing must remain of that view
+				auto undo = [this, &view]( VkImageView const * )
+				{
+					m_imageViews.erase( view );
+				};
+				std::unique_ptr< VkImageView, decltype( undo ) > guard{ &it->second, undo };
 				auto image = createImage( context, view.data->image ).first;
 				auto createInfo = reshdl::convert( *view.data, image );
 				auto res = context.vkCreateImageView( context.device
@@ -255,6 +306,7 @@ namespace crg
 				checkVkResult( res, "ImageView creation" );
 				crgRegisterObjectName( context, view.data->name, it->second );
 				created = true;
+				guard.release();
 			}
 
 			result = { it->second, created };
@@ -294,8 +346,8 @@ namespace crg
 				, &createInfo
 				, context.allocator
 				, &result );
-			auto & sampler = m_samplers.try_emplace( result, Sampler{ result, {} } ).first->second;
 			checkVkResult( res, "Sampler creation" );
+			auto & sampler = m_samplers.try_emplace( result, Sampler{ result, {} } ).first->second;
 			sampler.name = "Sampler_" + suffix;
 			crgRegisterObject( context, sampler.name, result );
 		}
@@ -315,6 +367,12 @@ namespace crg
 		{
 			auto result = std::make_unique< VertexBuffer >();
 			vertexBuffer = result.get();
+			// Should anything fail, nothing must remain of that buffer
+			auto undo = [&context]( VertexBuffer const * buffer )
+			{
+				reshdl::destroyVertexBuffer( context, *buffer );
+			};
+			std::unique_ptr< VertexBuffer, decltype( undo ) > guard{ vertexBuffer, undo };
 			VkBufferCreateInfo createInfo{ VK_STRUCTURE_TYPE_BUFFER_CREATE_INFO
 				, nullptr
 				, 0u
@@ -410,6 +468,7 @@ namespace crg
 			}
 
 			m_vertexBuffers.emplace( std::move( result ) );
+			guard.release();
 		}
 
 		return vertexBuffer;
@@ -423,16 +482,7 @@ namespace crg
 
 		if ( it != m_images.end() )
 		{
-			if ( context.vkFreeMemory && it->second.second )
-			{
-				context.vkFreeMemory( context.device, it->second.second, context.allocator );
-			}
-
-			if ( context.vkDestroyImage && it->second.first )
-			{
-				context.vkDestroyImage( context.device, it->second.first, context.allocator );
-			}
-
+			reshdl::destroyImage( context, it->second.first, it->second.second );
 			m_images.erase( it );
 		}
 	}
@@ -487,24 +537,7 @@ namespace crg
 
 		if ( it != m_vertexBuffers.end() )
 		{
-			auto & vertexBuffer = **it;
-
-			if ( context.vkFreeMemory && vertexBuffer.memory )
-			{
-				crgUnregisterObject( context, vertexBuffer.memory );
-				context.vkFreeMemory( context.device
-					, vertexBuffer.memory
-					, context.allocator );
-			}
-
-			if ( context.vkDestroyBuffer && vertexBuffer.buffer.buffer() )
-			{
-				crgUnregisterObject( context, vertexBuffer.buffer.buffer() );
-				context.vkDestroyBuffer( context.device
-					, vertexBuffer.buffer.buffer()
-					, context.allocator );
-			}
-
+			reshdl::destroyVertexBuffer( context, **it );
 			m_vertexBuffers.erase( it );
 		}
 	}
@@ -598,13 +631,14 @@ namespace crg
 	VkSampler ContextResourcesCache::createSampler( SamplerDesc const & samplerDesc )
 	{
 		auto hash = reshdl::makeHash( samplerDesc );
-		auto [it, res] = m_samplers.try_emplace( hash, VkSampler{} );
+		auto it = m_samplers.find( hash );
 
-		if ( res )
+		if ( it == m_samplers.end() )
 		{
-			it->second = m_handler.createSampler( m_context
+			auto sampler = m_handler.createSampler( m_context
 				, std::to_string( hash )
 				, samplerDesc );
+			it = m_samplers.try_emplace( hash, sampler ).first;
 		}
 
 		return it->second;
@@ -614,14 +648,15 @@ namespace crg
 		, Texcoord const & config )
 	{
 		auto hash = reshdl::makeHash( texCoords, config );
-		auto [it, res] = m_vertexBuffers.emplace( hash, nullptr );
+		auto it = m_vertexBuffers.find( hash );
 
-		if ( res )
+		if ( it == m_vertexBuffers.end() )
 		{
-			it->second = m_handler.createQuadTriVertexBuffer( m_context
+			auto vertexBuffer = m_handler.createQuadTriVertexBuffer( m_context
 				, std::to_string( hash )
 				, texCoords
 				, config );
+			it = m_vertexBuffers.try_emplace( hash, vertexBuffer ).first;
 		}
 
 		return *it->second;
-- 
2.43.0


From b8f118a8d418173d1b477c3333c9a7eceb52adf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:30 +0000
Subject: [PATCH 51/54] fix: create again the pipeline objects of a pass whose
 creation failed

---
 source/RenderGraph/RunnablePasses/ComputePass.cpp    | 1 +
 source/RenderGraph/RunnablePasses/PipelineHolder.cpp | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index d36dc31..7d6aeab 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -85,6 +85,7 @@ namespace crg
 		, VkCommandBuffer commandBuffer
 		, uint32_t index )
 	{
+		doCreatePipeline( index );
 		m_pipeline.recordInto( context, commandBuffer, index );
 		m_cpConfig.recordInto( context, commandBuffer, index );
 
diff --git a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
index 4d2524a..20d81a1 100644
--- a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
@@ -49,10 +49,17 @@ namespace crg
 	{
 		if ( !m_pipelineLayout )
 		{
+			// Should anything fail, nothing must remain of it
+			auto undo = []( PipelineHolder * holder )
+			{
+				holder->doRelease()( holder->m_context );
+			};
+			std::unique_ptr< PipelineHolder, decltype( undo ) > guard{ this, undo };
 			doFillDescriptorBindings();
 			doCreateDescriptorSetLayout();
 			doCreatePipelineLayout();
 			doCreateDescriptorPool();
+			guard.release();
 		}
 	}
 
-- 
2.43.0


From 4482f9823e28b20b9145e52477691747b373bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:30 +0000
Subject: [PATCH 52/54] fix: initialise a render pass again when its
 initialisation failed

---
 .../RunnablePasses/RenderPassHolder.hpp       |  1 +
 .../RenderGraph/RunnablePasses/RenderMesh.cpp |  7 +++++++
 .../RenderGraph/RunnablePasses/RenderPass.cpp |  7 +++++++
 .../RunnablePasses/RenderPassHolder.cpp       | 20 ++++++++++++-------
 .../RenderGraph/RunnablePasses/RenderQuad.cpp |  7 +++++++
 5 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
index 406bf9d..b8e329a 100644
--- a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
@@ -41,6 +41,7 @@ namespace crg
 		CRG_API bool initialise( RecordContext & context
 			, crg::RunnablePass const & runnable
 			, uint32_t passIndex );
+		CRG_API void reset( uint32_t passIndex );
 		CRG_API VkRenderPassBeginInfo getBeginInfo( uint32_t index )const;
 		CRG_API void begin( RecordContext & context
 			, VkCommandBuffer commandBuffer
diff --git a/source/RenderGraph/RunnablePasses/RenderMesh.cpp b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
index cc1d0b3..f6b327d 100644
--- a/source/RenderGraph/RunnablePasses/RenderMesh.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
@@ -51,11 +51,18 @@ namespace crg
 	{
 		if ( m_renderPass.initialise( context, *this, index ) )
 		{
+			auto undo = [index]( RenderPassHolder * holder )
+			{
+				// Initialise again next time.
+				holder->reset( index );
+			};
+			std::unique_ptr< RenderPassHolder, decltype( undo ) > guard{ &m_renderPass, undo };
 			m_renderMesh.cleanup();
 			m_renderMesh.initialise( m_renderPass.getRenderSize( index )
 				, m_renderPass.getRenderPass( index )
 				, m_renderPass.createBlendState()
 				, index );
+			guard.release();
 		}
 		else if ( auto renderSize = m_renderPass.getRenderSize( index );
 			renderSize.width != m_renderMesh.getRenderSize().width
diff --git a/source/RenderGraph/RunnablePasses/RenderPass.cpp b/source/RenderGraph/RunnablePasses/RenderPass.cpp
index 951675b..7ea93f3 100644
--- a/source/RenderGraph/RunnablePasses/RenderPass.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPass.cpp
@@ -121,7 +121,14 @@ namespace crg
 	{
 		if ( m_holder.initialise( context, *this, index ) )
 		{
+			auto undo = [index]( RenderPassHolder * holder )
+			{
+				// Initialise again next time.
+				holder->reset( index );
+			};
+			std::unique_ptr< RenderPassHolder, decltype( undo ) > guard{ &m_holder, undo };
 			m_rpCallbacks.initialise( index );
+			guard.release();
 		}
 
 		m_holder.begin( context
diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 87b6472..4e2cd9c 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -206,6 +206,19 @@ namespace crg
 			return false;
 		}
 
+		reset( passIndex );
+		doCreateRenderPass( context
+			, entries
+			, previousState
+			, nextState
+			, passIndex );
+		doInitialiseRenderArea( passIndex );
+		return true;
+	}
+
+	void RenderPassHolder::reset( uint32_t passIndex )
+	{
+		auto & data = m_passes[passIndex];
 
 		if ( data.renderPass )
 		{
@@ -217,13 +230,6 @@ namespace crg
 		}
 
 		data.release();
-		doCreateRenderPass( context
-			, entries
-			, previousState
-			, nextState
-			, passIndex );
-		doInitialiseRenderArea( passIndex );
-		return true;
 	}
 
 	VkRenderPassBeginInfo RenderPassHolder::getBeginInfo( uint32_t index )const
diff --git a/source/RenderGraph/RunnablePasses/RenderQuad.cpp b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
index 4088a0b..90c9073 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuad.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
@@ -51,10 +51,17 @@ namespace crg
 	{
 		if ( m_renderPass.initialise( context, *this, index ) )
 		{
+			auto undo = [index]( RenderPassHolder * holder )
+			{
+				// Initialise again next time.
+				holder->reset( index );
+			};
+			std::unique_ptr< RenderPassHolder, decltype( undo ) > guard{ &m_renderPass, undo };
 			m_renderQuad.initialise( m_renderPass.getRenderSize( index )
 				, m_renderPass.getRenderPass( index )
 				, m_renderPass.createBlendState()
 				, index );
+			guard.release();
 		}
 		else if ( auto renderSize = m_renderPass.getRenderSize( index );
 			renderSize.width != m_renderQuad.getRenderSize().width
-- 
2.43.0


From 1ac9fd6ea82950512c6bcdd6eba64191c8542bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:35 +0000
Subject: [PATCH 53/54] fix: choose the colours of debug labels without racing
 with other threads

---
 source/RenderGraph/GraphContext.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/GraphContext.cpp b/source/RenderGraph/GraphContext.cpp
index 3c403ce..7c19605 100644
--- a/source/RenderGraph/GraphContext.cpp
+++ b/source/RenderGraph/GraphContext.cpp
@@ -6,6 +6,7 @@ See LICENSE file in root folder.
 #include "RenderGraph/Exception.hpp"
 #include "RenderGraph/Log.hpp"
 
+#include <atomic>
 #include <cassert>
 #include <cmath>
 #include <stdexcept>
@@ -200,13 +201,21 @@ namespace crg
 
 	std::array< float, 4u > GraphContext::getNextRainbowColour()const
 	{
-		static float currentColourHue{ 0.0f };
-		currentColourHue += 0.0125f;
+		// Graphs can be recorded by several threads at once.
+		static std::atomic< float > nextColourHue{ 0.0f };
+		auto previousColourHue = nextColourHue.load();
+		float currentColourHue{};
 
-		if ( currentColourHue > 1.0f )
+		do
 		{
-			currentColourHue = 0.0f;
+			currentColourHue = previousColourHue + 0.0125f;
+
+			if ( currentColourHue > 1.0f )
+			{
+				currentColourHue = 0.0f;
+			}
 		}
+		while ( !nextColourHue.compare_exchange_weak( previousColourHue, currentColourHue ) );
 
 		float brightness = 1.0f;
 		float saturation = 1.0f;
-- 
2.43.0


From f6e93c8347173559a6258b7358e74ef9b9bb01ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:35 +0000
Subject: [PATCH 54/54] fix: let several threads use the deletion queue of a
 context

---
 include/RenderGraph/GraphContext.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/RenderGraph/GraphContext.hpp b/include/RenderGraph/GraphContext.hpp
index e68685e..8a2db21 100644
--- a/include/RenderGraph/GraphContext.hpp
+++ b/include/RenderGraph/GraphContext.hpp
@@ -351,12 +351,18 @@ namespace crg
 	public:
 		void push( DtorFunc func )
 		{
+			std::lock_guard lock{ m_mutex };
 			m_toDelete.push_back( std::move( func ) );
 		}
 
 		void clear( GraphContext & context )
 		{
-			DtorFuncArray tmp{ std::move( m_toDelete ) };
+			DtorFuncArray tmp;
+
+			{
+				std::lock_guard lock{ m_mutex };
+				tmp.swap( m_toDelete );
+			}
 
 			for ( DtorFunc const & func : tmp )
 			{
@@ -366,6 +372,7 @@ namespace crg
 
 	private:
 		DtorFuncArray m_toDelete;
+		std::mutex m_mutex;
 	};
 
 	struct GraphContext
-- 
2.43.0

