#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the list stays in step with the checks)."""
import json, os
S='source/RenderGraph/'; I='include/RenderGraph/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=(),hook=False):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
VK='every Vulkan call the library makes, recorded by a mock device handed to the graph context'
p('C01','Passes execute in an order that respects every declared dependency',
  'When the declared pass dependencies of a frame graph are acyclic, each registered pass, in whatever group it lives, is executed exactly once per frame and after all the passes it was declared to depend on. When they contain a cycle that leaves no starting pass or can be opened, the graph either still runs every pass exactly once or is refused; it never drops or duplicates a pass.',
  ['programs','inputs'],'all dependency relations over any number of passes, any creation order, any nesting of groups',
  'The tests sort a handful of hand-written graphs and compare a DOT dump with sorted lines, so they do not even observe the order.',
  [S+'FrameGraph.cpp',S+'FramePassGroup.cpp'],[('sortPasses',S+'FrameGraph.cpp'),('listPasses',S+'FramePassGroup.cpp')],
  obs=['order in which the record callbacks of the passes run during a frame'])
p('C02','Ill-formed graphs are refused and well-formed graphs are accepted',
  'Compiling a graph succeeds exactly when it has at least one pass and its declared dependencies can be ordered; registering two passes with the same name in one group fails while the same name in different groups is accepted, and asking twice for a group name gives the same group. Pass identifiers are unique within a graph, and the qualified name of a pass is made of the names of its enclosing groups.',
  ['programs','inputs'],'all sequences of pass and group registrations and all dependency relations',
  'A few fixed graphs are tried; acceptance and refusal are claims about every relation.',
  [S+'FrameGraph.cpp',S+'FramePassGroup.cpp',S+'FramePass.cpp'],[('compile/sortPasses',S+'FrameGraph.cpp'),('createPass/createPassGroup',S+'FramePassGroup.cpp')],
  obs=['exceptions thrown by pass creation and compilation','pass ids and full names'])
p('C03','Each frame records exactly the enabled passes, with their current variant',
  'Every frame, each pass that is enabled at that moment is recorded exactly once, with the variant index it currently reports, preceded by its pre-pass actions and followed by its post-pass actions in registration order; a disabled pass contributes no commands. A given variant of a pass is initialised exactly once, before the first time it is recorded. Recording again a single pass (one declared resettable) records what the frame recorded for it, in a command buffer of that variant.',
  ['histories','programs'],'all histories of frames interleaved with enabling, disabling and changing the variant index of passes',
  'Tests run one or two frames with constant enabling and a constant index.',
  [S+'RunnableGraph.cpp',S+'RunnablePass.cpp'],[('record loop',S+'RunnableGraph.cpp'),('recordInto/initialise',S+'RunnablePass.cpp')],
  obs=['order and arguments of the pass callbacks, and commands recorded between them'])
p('C04','Every image is in the layout each command needs, and old layouts are true',
  'At every point of the recorded command stream each image subresource is in the layout which the command using it requires: what the pass declared for sampled, storage and transfer uses, the stated layout for clears, copies and blits, and the subpass layout for render pass attachments. Every layout transition, by barrier or by render pass, states as old layout the actual current layout or "undefined", frame after frame and across chained graphs.',
  ['programs','histories','configurations'],'all graphs of passes over image views (mips, layers, 3D slices, depth/stencil), all histories of frames, enabling and variant changes, chained graphs',
  'The test mock discards all commands; no test observes a layout of any barrier.',
  [S+'RecordContext.cpp',S+'RunnablePass.cpp',S+'RunnableGraph.cpp',S+'RunnablePasses/RenderPassHolder.cpp',S+'LayerLayoutStatesHandler.cpp'],
  [('memoryBarrier',S+'RecordContext.cpp'),('recordInto',S+'RunnablePass.cpp'),('initialise/doCreateRenderPass',S+'RunnablePasses/RenderPassHolder.cpp')],
  state=[('tracked layouts','layout the library believes each layer/mip is in',S+'LayerLayoutStatesHandler.cpp')],obs=[VK])
p('C05','Image contents that a pass declares to read are never discarded',
  'When a pass declares an image as input and an earlier pass, an earlier frame or a chained graph wrote it, no layout transition from "undefined" and no render pass clear or don\'t-care load happens to those subresources between the write and that read, unless a pass or action in between declares to overwrite or clear them.',
  ['programs','histories'],'all graphs and all histories of frames, including images carried over from frame to frame and from graph to graph',
  'Needs multi-frame histories with changing enabled sets; tests observe no command.',
  [S+'RunnableGraph.cpp',S+'RunnablePass.cpp',S+'RunnablePasses/RenderPassHolder.cpp',S+'FrameGraph.cpp'],
  [('getCurrentLayoutState',S+'RunnableGraph.cpp'),('registerFinalState',S+'FrameGraph.cpp'),('addAttach',S+'RunnablePasses/RenderPassHolder.cpp')],obs=[VK])
p('C06','At frame end images are in the declared output layout, and reports are true',
  'After a frame, every image used by its enabled passes for which the graph declares an output layout is in that layout, and the final layout the graph reports for any view whose subresources were used is the layout those subresources are really in; for a view of subresources no frame has touched, none is reported.',
  ['programs','histories'],'all graphs, output declarations, and histories of frames with changing enabled sets',
  'Tests check outputs of two fixed graphs through the library\'s own bookkeeping, never against the commands.',
  [S+'FrameGraph.cpp',S+'RunnableGraph.cpp',S+'RunnablePasses/RenderPassHolder.cpp'],
  [('getOutputLayoutState/getFinalLayoutState',S+'FrameGraph.cpp'),('getNextLayoutState',S+'RunnableGraph.cpp')],obs=[VK,'reported final layout states'])
p('C07','Conflicting accesses to an image by different passes are synchronised',
  'Within a frame, whenever two passes access the same image subresource and at least one access writes (a layout transition counts as a write), the recorded barriers and render pass dependencies order the accesses, make the first write available, and make it visible to the pipeline stage and access kind of the later use.',
  ['programs','histories'],'all graphs of compute, graphics and transfer passes over shared image subresources, all enabled subsets, including passes unrelated to the image in between',
  'Unit tests observe no barrier at all.',
  [S+'RecordContext.cpp',S+'RunnablePass.cpp',S+'Attachment.cpp',S+'RunnablePasses/RenderPassHolder.cpp'],
  [('memoryBarrier',S+'RecordContext.cpp'),('subpass dependencies',S+'RunnablePasses/RenderPassHolder.cpp'),('getAccessMask/getPipelineStageFlags',S+'Attachment.cpp')],obs=[VK])
p('C08','Conflicting accesses to a buffer by different passes are synchronised',
  'Within a frame, whenever two passes access the same buffer (storage, uniform, texel, transfer, or explicitly transitioned) and at least one access writes, the recorded barriers order the accesses, make the write available, and make it visible to the stage and access kind of the later use.',
  ['programs','histories'],'all graphs of passes sharing buffers, all enabled subsets and repeated frames',
  'Unit tests observe no barrier at all.',
  [S+'RecordContext.cpp',S+'RunnablePass.cpp',S+'Attachment.cpp'],[('memoryBarrier (buffer)',S+'RecordContext.cpp'),('recordInto',S+'RunnablePass.cpp')],obs=[VK])
p('C09','An implicit action stands in for a disabled pass exactly once, in time',
  'An action registered by a pass for a view runs, during a frame in which that pass is disabled, exactly once and before the first later enabled pass that uses that view, or before the copy or blit of another such action that reads the view; the actions on one view run in the order of their passes; an action does not run in frames where the pass is enabled or where no later pass uses the view.',
  ['histories','programs'],'all histories of enabling/disabling over all graphs with implicit actions on any subset of views',
  'Tests exercise one producer and one consumer with a constant enabled state.',
  [S+'RecordContext.cpp',S+'RunnablePass.cpp'],[('registerImplicitTransition/runImplicitTransition',S+'RecordContext.cpp')],obs=['calls of the action','commands it records'])
p('C10','Outputs declared as cleared are cleared once per recording, before the pass runs',
  'Each time a pass is recorded, every storage or transfer image and buffer it declares as a clearable output is cleared to zero exactly once, over exactly the declared subresources or byte range, with the command for the kind of image it is, after the accesses of earlier passes and before the pass\'s own commands; nothing else is cleared on its behalf.',
  ['programs','histories'],'all passes, views, buffer ranges, variants and frames',
  'The clears are issued through function pointers which the tests stub out.',
  [S+'RunnablePass.cpp',S+'FramePass.cpp'],[('recordInto',S+'RunnablePass.cpp')],obs=[VK])
p('C11','Render passes and framebuffers match the attachments declared by the pass',
  'The render pass begun for a pass variant has exactly one attachment per declared colour or depth/stencil view (colour references in declaration order), with that view\'s format, the declared load and store operations (a load of undefined contents becoming a clear), the declared clear value, and a subpass reference in the right layout; the framebuffer holds the views of that same variant and a render area and layer count consistent with them. No destroyed or outdated render pass or framebuffer is ever begun.',
  ['programs','histories'],'all sets of attachments, variants, and histories that force the render pass to be rebuilt',
  'Tests build a few attachment sets and look only at whether calls succeed.',
  [S+'RunnablePasses/RenderPassHolder.cpp',S+'RunnablePasses/RenderPass.cpp'],[('doCreateRenderPass/doCreateFramebuffer/begin',S+'RunnablePasses/RenderPassHolder.cpp')],obs=[VK])
p('C12','Device objects are destroyed exactly once, never used after, and none leaks',
  'Every device object the library creates is destroyed exactly once by the time the graph, its caches and its context are torn down, with its memory freed once; no command, creation or submission refers to an object already destroyed, and child objects are destroyed before the pool or image they come from.',
  ['histories','programs'],'all histories of compiling, running, resetting passes, recompiling and tearing down graphs in any order',
  'Tests use fake handles and never pair creations with destructions.',
  [S+'ResourceHandler.cpp',S+'RunnableGraph.cpp',S+'RunnablePass.cpp',S+'RunnablePasses/PipelineHolder.cpp',S+'RunnablePasses/RenderPassHolder.cpp'],
  [('ContextResourcesCache',S+'ResourceHandler.cpp'),('ContextObjectT','include/RenderGraph/FrameGraphPrerequisites.hpp'),('DeletionQueue',I+'GraphContext.hpp')],obs=[VK])
p('C13','Resource identifiers are unique, views are shared, and creation is faithful',
  'Each registered image gets a new identifier; two view registrations share an identifier exactly when they describe the same view of the same image. For one context, each identifier is backed by a single device object, created with exactly the registered parameters on memory of a suitable type, and destroying it succeeds exactly when it is alive and owned by the cache asked to do it.',
  ['histories','inputs','schedules'],'all sequences (and concurrent interleavings) of registrations, creations and destructions over any number of caches of one context',
  'Tests register a few resources once each and never interleave or repeat operations.',
  [S+'ResourceHandler.cpp',S+'FrameGraph.cpp'],[('createImageId/createViewId/createImage/createImageView',S+'ResourceHandler.cpp')],obs=['returned identifiers and handles',VK])
p('C14','Samplers and full-screen geometry are shared only between equal descriptions',
  'Asking one cache for a sampler or for full-screen triangle geometry returns the same object for equal descriptions and different objects for different ones; each sampler is created with exactly the requested filters, addressing and level-of-detail values, and the geometry covers the whole viewport with texture coordinates inverted exactly as requested.',
  ['inputs','histories'],'all sampler descriptions and geometry options, all request histories',
  'Tests ask for one or two samplers and never inspect the vertex data.',
  [S+'ResourceHandler.cpp'],[('createSampler/createQuadTriVertexBuffer/makeHash',S+'ResourceHandler.cpp')],obs=[VK,'contents of the mapped vertex memory'])
p('C15','Frames are submitted once, in a correct fence and semaphore protocol',
  'Running a graph records and submits its command buffer exactly once, waiting on exactly the distinct non-null semaphores given, each with the stage given for it, signalling the one semaphore that is returned to the caller; the command buffer is not reset or re-recorded and the fence not reset until the previous submission has been waited for. The returned semaphore is paired with the pipeline stage of the last executed work.',
  ['histories','inputs'],'all sequences of record and run, and all arrays of wait semaphores with duplicates and nulls',
  'Tests run one frame on a mock that ignores fences and semaphores.',
  [S+'RunnableGraph.cpp',S+'RunnablePass.cpp'],[('record/run',S+'RunnableGraph.cpp'),('convert, Fence',S+'RunnablePass.cpp')],obs=[VK,'returned semaphores'])
p('C16','Replaced GPU objects are destroyed only once the GPU is done with them',
  'When a pass\'s programs, render targets or pipelines are reset or rebuilt between frames, the objects they replace stay alive until the submission that last used them has completed, are then destroyed exactly once, and later frames bind only the replacements.',
  ['histories'],'all histories of frames interleaved with program changes, pipeline resets and target changes',
  'Tests reset once, with stubs which do not know about pending work.',
  [S+'RunnablePasses/PipelineHolder.cpp',S+'RunnablePasses/RenderPassHolder.cpp',I+'GraphContext.hpp',S+'RunnableGraph.cpp'],
  [('DeletionQueue',I+'GraphContext.hpp'),('cleanup/resetPipeline',S+'RunnablePasses/PipelineHolder.cpp')],obs=[VK])
p('C17','Timestamp queries are reset, written in pairs, read once, and converted right',
  'Each recorded frame writes, for the graph and for each enabled pass, one begin and one end timestamp in distinct query slots inside the pool, reset before being written and not shared with any other timer; results are only read for slots written by a submission, and the reported duration is the tick difference times the tick period of the device used.',
  ['histories','programs','configurations'],'all numbers of passes, all histories of frames, enabling and reads, all device tick periods',
  'Tests create a timer and read zeros from a stub.',
  [S+'FramePassTimer.cpp',S+'RunnableGraph.cpp'],[('beginPass/endPass/retrieveGpuTime',S+'FramePassTimer.cpp')],obs=[VK,'reported durations'])
p('C18','Signals call exactly the connected slots and connections are independent',
  'Emitting a signal calls each slot that is connected at that time exactly once with the given arguments; connecting, disconnecting, moving or destroying one connection never affects another, and a disconnected slot is never called again.',
  ['histories'],'all histories of connect, disconnect, move, destroy and emit, including slots which connect or disconnect while being called',
  'Tests connect one or two slots once; the failures need a connect after a disconnect.',
  [I+'Signal.hpp'],[('Signal/Connection',I+'Signal.hpp')],obs=['slots called by each emit'])
p('C19','Descriptors bound for a pass variant describe exactly what the pass declared',
  'For every pass variant, the descriptor set bound when its commands are recorded has one binding per attachment or extra descriptor declared with a binding number, of the declared type, pointing to that variant\'s view, buffer and range with the sampler and layout the pass uses them in; the set comes from a layout and pool able to hold it and is bound with the pipeline layout made from that layout.',
  ['programs','inputs'],'all mixes of sampled, storage, uniform, texel attachments, extra descriptors, variants',
  'Tests use stubs for descriptor writes and allocate one fixed set.',
  [S+'RunnablePasses/PipelineHolder.cpp',S+'Attachment.cpp'],[('createDescriptorSet/doCreateDescriptorSetLayout/Pool',S+'RunnablePasses/PipelineHolder.cpp'),('getBufferWrite',S+'Attachment.cpp')],obs=[VK])
p('C20','Compute passes dispatch the configured work with their own pipeline',
  'Each time a compute pass is recorded it binds its own compute pipeline, its descriptor set and push data, and issues exactly one dispatch whose three group counts are those configured or returned by the respective callbacks at that moment, or one indirect dispatch from the configured buffer and offset.',
  ['inputs','histories'],'all group count configurations and callbacks changing from frame to frame',
  'Tests only check that recording does not throw.',
  [S+'RunnablePasses/ComputePass.cpp',I+'RunnablePasses/ComputePass.hpp'],[('doRecordInto',S+'RunnablePasses/ComputePass.cpp')],obs=[VK])
p('C21','Quad and mesh passes draw the configured geometry inside their render pass',
  'Each time a full-screen or mesh pass is recorded it issues its draws inside its own render pass with its own graphics pipeline and viewport, drawing the configured geometry: the full-screen triangle or instances for quads, and for meshes the current vertex, index or indirect buffers, counts and offsets.',
  ['inputs','histories'],'all geometry configurations and callbacks changing from frame to frame',
  'Tests only check that recording does not throw.',
  [S+'RunnablePasses/RenderQuadHolder.cpp',S+'RunnablePasses/RenderMeshHolder.cpp'],[('record/end',S+'RunnablePasses/RenderQuadHolder.cpp'),('record',S+'RunnablePasses/RenderMeshHolder.cpp')],obs=[VK])
p('C22','Mip generation fills every level from the previous one, in every layer',
  'Generating mip levels for a view blits, for each array layer, each level from the level just above it in increasing order, each destination extent being half the source (at least one), never reading a level that was not yet produced; afterwards every generated level used by the next pass that touches the image is already in a layout this pass asks for on them.',
  ['inputs','programs'],'all image sizes, mip counts, layer counts and following users',
  'The tests run a fixed image on stubs.',
  [S+'RunnablePasses/GenerateMipmaps.cpp'],[('recordInto',S+'RunnablePasses/GenerateMipmaps.cpp')],obs=[VK])
p('C23','Copy and blit passes transfer the declared regions between declared resources',
  'Copy, blit, buffer-to-image and image-to-buffer passes issue exactly one transfer per recording and declared pair, from the declared source to the declared destination subresources of the current variant with the configured offsets and extents, and leave the destination in the configured final layout when one is given.',
  ['inputs','programs','histories'],'all regions, views (mips, layers, aspects), pass kinds and variants',
  'Tests only check that recording does not throw.',
  [S+'RunnablePasses/ImageCopy.cpp',S+'RunnablePasses/ImageBlit.cpp',S+'RunnablePasses/BufferCopy.cpp',S+'RunnablePasses/BufferToImageCopy.cpp',S+'RunnablePasses/ImageToBufferCopy.cpp'],[('recordInto','source/RenderGraph/RunnablePasses')],obs=[VK])
p('C24','The transition graph links each consumer to the producers it depends on',
  'For every pass that reads a buffer, a view, or one mip level of a view, written by a pass it depends on - directly or through passes that do not use that resource - the compiled graph exposes a transition from producer to consumer over overlapping subresources, and the pass graph links the two; every transition it exposes between two passes relates a declared writer to a declared reader that depends on it, over overlapping subresources. What a pass reads and no pass writes, and what a pass writes and no pass reads, is exposed as a transition between that pass and the outside of the graph (for a buffer, from the outside to a reader and from a writer to the outside).',
  ['programs'],'all graphs of passes over overlapping and disjoint views, layers, mips and buffers',
  'Tests compare DOT dumps of fixed graphs.',
  [S+'FramePassDependenciesBuilder.cpp',S+'GraphBuilder.cpp',S+'FramePass.cpp'],[('buildPassAttachDependencies',S+'FramePassDependenciesBuilder.cpp'),('dependsOn',S+'FramePass.cpp')],obs=['compiled transitions and node adjacency'])
p('C25','Tracked layouts are exact per layer and mip level',
  'After any sequence of layout updates over views and ranges, the tracked layout of each mip level of each layer is the one given by the last update covering it, untouched otherwise; asking for a range in a single state returns that state, 3D slices are tracked through views of the whole image as layers, and merging states from another tracker never overrides those already known.',
  ['histories','inputs'],'all sequences of updates, merges and queries over images with any mips, layers and view types',
  'Tests set and read back a few ranges.',
  [S+'LayerLayoutStatesHandler.cpp',S+'FrameGraph.cpp'],[('setLayoutState/getLayoutState/addStates',S+'LayerLayoutStatesHandler.cpp'),('addSubresourceRangeLayout/getSubresourceRangeLayout',S+'FrameGraph.cpp')],obs=['returned layout states'])
p('C26','Merging views yields the exact union and keeps its sources',
  'Merging views of one image yields a view covering exactly the smallest range of mip levels and layers holding all sources, with the union of their aspects and the sources recorded in order; merging attachments keeps their declared direction and binding, and a merged attachment resolves, for each variant, to views of the sources.',
  ['inputs'],'all sets of mergeable views and attachments',
  'Tests merge two or three fixed views.',
  [S+'FramePass.cpp',S+'FramePassGroup.cpp',S+'ResourceHandler.cpp'],[('mergeViews',S+'FramePass.cpp')],obs=['data of the merged view identifiers'])
p('C27','An attachment reports the layout, access and stage of its declared use',
  'For every way of declaring a resource on a pass, the attachment reports as input exactly when the pass reads it, as output exactly when it writes it, and the image layout, access mask, pipeline stage and descriptor type it reports are those of that use (sampled, storage, uniform, texel, transfer, colour, depth, stencil, explicit transition) for graphics and for compute passes.',
  ['inputs','configurations'],'every declaration function, input/output combination, aspect, pass kind, and separate depth/stencil layout support',
  'Tests check flags for many declarations but not layouts, accesses and stages together.',
  [S+'FramePass.cpp',S+'Attachment.cpp',I+'Attachment.hpp'],[('add*View / add*Buffer',S+'FramePass.cpp'),('getImageLayout/getAccessMask/getPipelineStageFlags',S+'Attachment.cpp')],obs=['attachment getters'])
p('C28','Created and destroyed objects are reported exactly, and leaks are listed',
  'The context names every object it is told about, and what it reports as leaked when torn down is exactly the set of objects registered and not unregistered since, whatever the order of registrations, re-registrations and removals.',
  ['histories'],'all histories of registration, re-registration and removal',
  'Tests never inspect the leak report.',
  [S+'GraphContext.cpp'],[('doRegisterObject/doUnregisterObject',S+'GraphContext.cpp')],obs=['leak report','object naming calls'])
p('C29','The memory type chosen is the first one that is allowed and has all properties',
  'Deducing a memory type returns the lowest index that is present in the allowed mask and has all the requested property flags, and fails when there is none.',
  ['inputs','configurations'],'all masks, property requests and memory type tables',
  'Tests try one failing request.',
  [S+'GraphContext.cpp'],[('deduceMemoryType',S+'GraphContext.cpp')],obs=['returned index or exception'])
p('C30','The exported graph description lists exactly the passes and transitions',
  'The textual graph exports of a compiled graph name exactly the passes that take part in the transitions they show, each once and inside its group when grouping is asked for; for each transition between two passes there is an edge path from producer to consumer labelled with the resource, and there is no edge between passes without such a transition, with or without grouping, splitting, names and colours.',
  ['programs'],'all compiled graphs and export options',
  'Tests compare fixed dumps.',
  [S+'DotExport.cpp'],[('displayPasses/displayTransitions',S+'DotExport.cpp')],obs=['exported text'])
p('C31','Everything recorded for a pass is enclosed in its own debug label',
  'While a frame is recorded, the commands and callbacks of each enabled pass lie inside one debug label which names that pass and no other; each recorded pass has exactly one label per recording, and labels are balanced in every command buffer.',
  ['programs','histories'],'all graphs, enabled subsets and repeated frames',
  'Unit tests observe no label.',
  [S+'RunnablePass.cpp',S+'GraphContext.cpp'],[('recordInto',S+'RunnablePass.cpp'),('vkCmdBeginDebugBlock',S+'GraphContext.cpp')],obs=[VK])
p('C32','A record context tells the truth and its barriers and actions do what was asked',
  'For every history of states set, barriers asked (with or without a layout for what is not known, forced or not, on views or ranges) and clear, copy and blit actions run on a record context: the state it reports for a subresource or buffer is the one last set or reached there; each barrier covers exactly the asked subresources not already in place, once, from the state known for them (or the given one) to the asked one, ordering it after the previous writes, and none is left out unless that state is the same and only read; an action records exactly one command, on the configured region and value, with the images in the transfer layouts, and leaves the destination in the asked final layout.',
  ['histories','inputs'],'all histories of calls, images with several mips and layers, colour and depth/stencil formats, buffers',
  'Unit tests make a few calls on stubbed devices and look only at the reported layout.',
  [S+'RecordContext.cpp',S+'LayerLayoutStatesHandler.cpp'],[('memoryBarrier',S+'RecordContext.cpp'),('copyImage/blitImage/clearAttachment',S+'RecordContext.cpp')],obs=[VK])
p('C33','A failing Vulkan call surfaces and loses nothing',
  'When a Vulkan call which creates, allocates, binds or maps something fails while a graph is compiled, run or recorded, a pass recorded again, its pipeline reset, or a resource asked from a handler or cache, the operation stops there and reports the failure by an exception. A compilation which failed leaves no object behind; nothing is leaked, destroyed twice or used while dead; no cache or registry lists something which was not created; and asking again, once the cause is gone, works and does what it would have done at first.',
  ['fault_sequences','programs','histories'],'all failing calls of all operations, first and later ones; all pass kinds',
  'Unit tests run on devices which never fail.',
  [S+'ResourceHandler.cpp',S+'RunnableGraph.cpp',S+'RunnablePass.cpp',S+'RunnablePasses/PipelineHolder.cpp',S+'RunnablePasses/RenderPassHolder.cpp'],[('checkVkResult',S+'GraphContext.cpp'),('createImage/createImageView',S+'ResourceHandler.cpp'),('RunnableGraph',S+'RunnableGraph.cpp')],obs=[VK])
p('C34','Threads can share a resource handler and a context',
  'Threads which share a resource handler and a graph context - asking the handler for identifiers, images, views, samplers and quads or giving them back, registering and unregistering objects, or declaring, compiling, recording, running and destroying graphs of their own - get what they would get if their requests were made one after the other, in some order: one identifier, image or view for each thing, never two, each alive while it is handed out and destroyed once; the leaks reported are those of that order. No request waits forever, no data is touched by two threads without anything to order them, and a graph does not depend on what another thread makes of another one.',
  ['schedules','histories'],'all interleavings of the requests of all threads, at every device call, allocation and lock',
  'Unit tests use one thread.',
  [S+'ResourceHandler.cpp',S+'GraphContext.cpp',S+'RunnableGraph.cpp',I+'ResourceHandler.hpp',I+'GraphContext.hpp'],[('m_imagesMutex/m_viewsMutex/m_samplersMutex/m_buffersMutex',S+'ResourceHandler.cpp'),('m_mutex, m_allocated',S+'GraphContext.cpp'),('DeletionQueue',I+'GraphContext.hpp')],obs=[VK,'answers of the requests','leaks reported by the handler and the context'])
if __name__=='__main__':
    with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
        for x in P: f.write(json.dumps(x)+'\n')
