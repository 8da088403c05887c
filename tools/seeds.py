"""Planted changes: each breaks a property, builds, and passes the repository's own tests (mkseed.py confirms)."""
from sgen import Scn

SEEDS = []


def seed(id, property, edits, scen, look, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, scen=scen, look=look, needs=needs, breaks=breaks))


def base(name, **ctx):
    sc = Scn(1, name)
    sc.ctx(**ctx)
    return sc


def tex(sc, **kw):
    im = sc.image(fmt=kw.pop('fmt', 37), ext=[16, 16, 1], **kw)
    return sc.view(im, 37, 'C', [0, 1, 0, 1])


# --- C01 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('dependency-order')
    g = sc.graph(name='g')
    r, a, b, c = [sc.pass_(sc.next(), g, None, n, kind='custom', st=['FS']) for n in ('root', 'a', 'b', 'c')]
    for p, on in ((a, r), (b, a), (c, b), (c, a)):
        sc.op('dep', id=p, on=on)
    sc.op('compile', id=g)
    sc.op('run', id=g, wait=[])
    return sc.done()


seed('C01-last-declared-dependency', 'C01',
     [('source/RenderGraph/FrameGraph.cpp', '''							return pass->dependsOn( *lookup );
						} );
						rit''', '''							return pass->passDepends.back() == lookup;
						} );
						rit''')],
     s, '''
order = [e['p'] for e in ev if e['e'] == 'exec']
if order != [3, 4, 5, 6]:
    fail('executed order', order)
''', 'a pass with two dependencies, declared in an order which is not the execution order',
     'a pass is executed before a pass it depends on')


# --- C03 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('second-index')
    g = sc.graph(name='g')
    sc.pass_(sc.next(), g, None, 'p', kind='custom', st=['FS'], maxpass=3)
    sc.op('compile', id=g)
    for i in (0, 2, 1):
        sc.set(3, enabled=True, index=i)
        sc.op('run', id=g, wait=[])
    return sc.done()


seed('C03-initialise-front', 'C03',
     [('source/RenderGraph/RunnablePass.cpp', 'if ( auto const & pass = m_passes[index]; !pass.initialised )', 'if ( auto const & pass = m_passes.front(); !pass.initialised )')],
     s, '''
ready = set()
for e in ev:
    if e['e'] == 'init':
        ready.add(e['idx'])
    if e['e'] == 'exec' and e['idx'] not in ready:
        fail('index', e['idx'], 'recorded without having been initialised')
''', 'a pass with several variants, switching to a variant that was not current when the graph was compiled',
     'a pass variant is recorded without having been initialised')


# --- C09 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('two-actions')
    im = sc.image(fmt=37, ext=[16, 16, 1], mips=2)
    v0, v1 = sc.view(im, 37, 'C', [0, 1, 0, 1]), sc.view(im, 37, 'C', [1, 1, 0, 1])
    g = sc.graph(name='g')
    a = sc.pass_(sc.next(), g, None, 'a', kind='custom', st=['FS'], enabled=False,
                 atts=[{'k': 'outTransfer', 'views': [v0]}, {'k': 'outTransfer', 'views': [v1]}],
                 imp=[{'view': v0, 'do': 'mark'}, {'view': v1, 'do': 'mark'}])
    b = sc.pass_(sc.next(), g, None, 'b', kind='custom', st=['FS'],
                 atts=[{'k': 'inTransfer', 'views': [v0]}, {'k': 'inTransfer', 'views': [v1]}])
    sc.op('dep', id=b, on=a)
    for v in (v0, v1):
        sc.op('input', id=g, view=v, lay='SHADER_RO')
    sc.op('compile', id=g, imap=[im])
    sc.op('run', id=g, wait=[])
    return sc.done()


seed('C09-one-action-per-pass', 'C09',
     [('source/RenderGraph/RecordContext.cpp', '''		m_implicitTransitions.emplace_back( std::move( transition ) );''',
       '''		if ( m_implicitTransitions.empty() || m_implicitTransitions.back().pass != transition.pass )
			m_implicitTransitions.emplace_back( std::move( transition ) );''')],
     s, '''
ran = sorted(e['j'] for e in ev if e['e'] == 'implicit')
if ran != [0, 1]:
    fail('implicit actions which ran:', ran)
''', 'a disabled pass with implicit actions on two views, both consumed by an enabled pass',
     'only the first implicit action of the disabled pass runs')


# --- C17 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('three-frames')
    g = sc.graph(name='g')
    sc.pass_(sc.next(), g, None, 'p', kind='custom', st=['FS'])
    sc.op('compile', id=g)
    for _ in range(4):
        sc.op('run', id=g, wait=[])
        sc.op('gputime', graph=g)
    return sc.done()


seed('C17-reset-one-query', 'C17',
     [('source/RenderGraph/FramePassTimer.cpp', '''			, query.offset
			, 2u );
		m_context.vkCmdWriteTimestamp''', '''			, query.offset
			, 1u );
		m_context.vkCmdWriteTimestamp''')],
     s, '''
written = set()
for e in ev:
    if e['e'] == 'ResetQueryPool':
        written -= {(e['pool'], q) for q in range(e['first'], e['first'] + e['n'])}
    if e['e'] == 'WriteTimestamp':
        if (e['pool'], e['q']) in written:
            fail('query', e['q'], 'written again without having been reset')
        written.add((e['pool'], e['q']))
''', 'three frames: each timer alternates between two pairs of queries', 'a timestamp query is written again without a reset')


# --- C08 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('third-use')
    b = sc.buffer()
    g = sc.graph(name='g')
    w = sc.pass_(sc.next(), g, None, 'w', kind='custom', st=['FS'], atts=[{'k': 'inBuf', 'buf': b, 'off': 0, 'size': -1, 'bind': 0}])
    r1 = sc.pass_(sc.next(), g, None, 'r1', kind='custom', st=['CS'], compute=True, atts=[{'k': 'outBuf', 'buf': b, 'off': 0, 'size': -1, 'bind': 0}])
    r2 = sc.pass_(sc.next(), g, None, 'r2', kind='custom', st=['FS'], atts=[{'k': 'ioBuf', 'buf': b, 'off': 0, 'size': -1, 'bind': 0}])
    for p, on in ((r1, w), (r2, r1)):
        sc.op('dep', id=p, on=on)
    sc.op('compile', id=g)
    sc.op('run', id=g, wait=[])
    return sc.done()


seed('C08-state-of-first-use', 'C08',
     [('source/RenderGraph/RecordContext.cpp', 'm_buffers.insert_or_assign( buffer, layoutState );', 'm_buffers.try_emplace( buffer, layoutState );')],
     s, '''
got = None
for e in ev:
    if e['e'] == 'Barrier' and e['buf']:
        got = e
    if e['e'] == 'exec' and e['p'] == 6 and not (got and 'CS' in got['ss'] and any('SH_W' in b['sa'] for b in got['buf'])):
        fail('the third pass does not wait for the write of the second one', got)
''', 'a buffer used by three passes, in different ways',
     'the third use is synchronised with the first one instead of the second one')


# --- C07 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('two-image-readers')
    v = tex(sc)
    g = sc.graph(name='g')
    a = sc.pass_(sc.next(), g, None, 'a', kind='custom', st=['CS'], compute=True, atts=[{'k': 'outStorage', 'views': [v], 'bind': 0}])
    b = sc.pass_(sc.next(), g, None, 'b', kind='custom', st=['CS'], compute=True, atts=[{'k': 'sampled', 'views': [v], 'bind': 0}])
    c = sc.pass_(sc.next(), g, None, 'c', kind='custom', st=['FS'], atts=[{'k': 'outTransfer', 'views': [v]}])
    sc.op('dep', id=b, on=a)
    sc.op('dep', id=c, on=b)
    sc.op('compile', id=g, imap=[2])
    sc.op('run', id=g, wait=[])
    return sc.done()


seed('C07-source-stage', 'C07',
     [('source/RenderGraph/RecordContext.cpp', '''				, from.state.pipelineStage
				, wantedState.state.pipelineStage
				, VK_DEP''', '''				, getStageMask( from.layout )
				, wantedState.state.pipelineStage
				, VK_DEP''')],
     s, '''
for e in ev:
    if e['e'] == 'Barrier' and e['img'] and any(b['new'] == 'DST' for b in e['img']) and 'CS' not in e['ss']:
        fail('the transfer does not wait for the compute stage which samples the image')
''', 'an image sampled by a compute pass, then overwritten by a transfer',
     'the write of a later pass does not wait for the compute stage reading the image')


# --- C02 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('ids-across-groups')
    g = sc.graph(name='g')
    a, b = sc.group(g, None, 'a'), sc.group(g, None, 'b')
    for i, grp in enumerate((a, b, None, a)):
        sc.pass_(sc.next(), g, grp, 'p%d' % i, kind='custom', st=['FS'])
    return sc.done()


seed('C02-ids-per-group', 'C02',
     [('source/RenderGraph/FramePassGroup.cpp', 'auto count = group::countPasses( group::getOutermost( this ) );', 'auto count = group::countPasses( this );')],
     s, '''
ids = [e['lid'] for e in ev if e['e'] == 'pass']
if len(set(ids)) != len(ids):
    fail('ids of the passes:', ids)
''', 'passes created in several groups of one graph', 'two passes of a graph have the same id')


# --- C05 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('previous-graph')
    v = tex(sc)
    g = sc.graph(name='g')
    a = sc.pass_(sc.next(), g, None, 'a', kind='custom', st=['FS'], atts=[{'k': 'outTransfer', 'views': [v]}])
    h = sc.graph(name='h')
    b = sc.pass_(sc.next(), h, None, 'b', kind='custom', st=['FS'], atts=[{'k': 'sampled', 'views': [v], 'bind': 0}])
    sc.op('graphdep', id=h, on=g)
    for x in (g, h):
        sc.op('compile', id=x)
    for x in (g, h):
        sc.op('run', id=x, wait=[])
    return sc.done()


seed('C05-states-of-dependencies', 'C05',
     [('source/RenderGraph/RunnableGraph.cpp', 'recordContext.addStates( dependency->getFinalStates() );', 'recordContext.addStates( m_graph.getFinalStates() );')],
     s, '''
for e in ev:
    if e['e'] == 'Barrier':
        for b in e['img']:
            if b['new'] == 'SHADER_RO' and b['old'] == 'UNDEF':
                fail('the content written by the first graph is discarded by the second one')
''', 'two graphs, one depending on the other, sharing an image', 'the content written by the first graph is discarded by the second')


# --- C10 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('clear-a-part')
    b = sc.buffer()
    g = sc.graph(name='g')
    sc.pass_(sc.next(), g, None, 'p', kind='custom', st=['FS'], atts=[{'k': 'clrBuf', 'buf': b, 'off': 64, 'size': 32, 'bind': 0}])
    sc.op('compile', id=g)
    sc.op('run', id=g, wait=[])
    return sc.done()


seed('C10-clear-from-start', 'C10',
     [('source/RenderGraph/RunnablePass.cpp', ', range.offset == 0u ? 0u : details::getAlignedSize( range.offset, 4u )', ', range.size == VK_WHOLE_SIZE ? details::getAlignedSize( range.offset, 4u ) : 0u')],
     s, '''
for e in ev:
    if e['e'] == 'FillBuffer' and e['off'] != 64:
        fail('filled from', e['off'])
''', 'a clearable buffer attachment which covers a part of its buffer, away from the start', 'another part of the buffer is cleared')


# --- C14 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('two-samplers')
    g = sc.next()
    sc.op('cache', id=g, ctx=1)
    for bias in (0, 1):
        sc.op('csampler', id=g, d=[0, 0, 0, 0, 0, 0, bias, 0, 4])
    sc.op('dropcache', id=g)
    return sc.done()


seed('C14-lod-bias', 'C14',
     [('source/RenderGraph/ResourceHandler.cpp', '			result = hashCombine( result, samplerDesc.mipLodBias );\n', '')],
     s, '''
bias = [e['bias'] for e in ev if e['e'] == 'CreateSampler']
if len(bias) != 2:
    fail('samplers created:', bias)
''', 'two samplers which differ by their level of detail bias only', 'the second request gets the sampler of the first one')


# --- C15 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('waits')
    g = sc.graph(name='g')
    sc.pass_(sc.next(), g, None, 'p', kind='custom', st=['FS'])
    sc.op('compile', id=g)
    a, b = sc.sem(), sc.sem()
    sc.op('run', id=g, wait=[[a, ['TR']], [a, ['CS']], [b, ['FS']]])
    return sc.done()


seed('C15-masks-of-duplicates', 'C15',
     [('source/RenderGraph/RunnablePass.cpp', '''				semaphores.push_back( wait.semaphore );
				dstStageMasks.push_back( wait.dstStageMask );
			}
''', '''				semaphores.push_back( wait.semaphore );
			}

			dstStageMasks.push_back( wait.dstStageMask );
''')],
     s, '''
for e in ev:
    if e['e'] == 'QueueSubmit':
        for s in e['subs']:
            if len(s['waits']) == 2 and 'FS' not in s['stages'][1]:
                fail('the second semaphore is waited at', s['stages'][1])
''', 'one semaphore given twice, followed by another one', 'the second semaphore is waited for at the wrong stage')


# --- C18 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('assigned-over')
    s1 = sc.next()
    sc.op('sig', id=s1)
    a, b, c = sc.next(), sc.next(), sc.next()
    sc.op('connect', id=a, sig=s1, slot=1, acts=[])
    sc.op('connect', id=b, sig=s1, slot=2, acts=[])
    sc.op('conmove', id=a, **{'from': b, 'assign': True})
    sc.op('emit', id=s1, arg=5)
    return sc.done()


seed('C18-assigned-over', 'C18',
     [('include/RenderGraph/Signal.hpp', '''			SignalConnection tmp{ std::move( rhs ) };
			swap( *this, tmp );
			return *this;''', '''			swap( *this, rhs );
			return *this;''')],
     s, '''
got = [e['slot'] for e in ev if e['e'] == 'called']
if got != [2]:
    fail('slots called:', got)
''', 'a connection assigned over another one, which lives on', 'the slot of the overwritten connection is still called')


# --- C19 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('variants')
    v, w = tex(sc), tex(sc)
    g = sc.graph(name='g')
    p = sc.pass_(sc.next(), g, None, 'p', kind='compute', maxpass=2, cfg={'progs': [[[32, 900]], [[32, 901]]], 'gc': [1, 1, 1]},
                 atts=[{'k': 'outStorage', 'views': [v, w], 'bind': 0}])
    sc.op('compile', id=g)
    for i in (0, 1):
        sc.set(p, enabled=True, index=i)
        sc.op('run', id=g, wait=[])
    return sc.done()


seed('C19-first-storage-view', 'C19',
     [('source/RenderGraph/RunnablePasses/PipelineHolder.cpp', '''					, VkDescriptorImageInfo{ VkSampler{}
						, m_graph.createImageView( attach.view( index ) )''', '''					, VkDescriptorImageInfo{ VkSampler{}
						, m_graph.createImageView( attach.view() )''')],
     s, '''
views = [w['img'][0][1] for e in ev if e['e'] == 'UpdateDescriptorSets' for w in e['ws']]
if len(views) != 2 or views[0] == views[1]:
    fail('views written to the descriptor sets:', views)
''', 'a storage image attachment with one view per variant', 'the second variant writes to the view of the first one')


# --- C20 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('indirect')
    b = sc.buffer()
    v = tex(sc)
    g = sc.graph(name='g')
    sc.pass_(sc.next(), g, None, 'p', kind='compute', cfg={'progs': [[[32, 900]]], 'indirect': [b, 12, 48]},
             atts=[{'k': 'outStorage', 'views': [v], 'bind': 0}])
    sc.op('compile', id=g)
    sc.op('run', id=g, wait=[])
    return sc.done()


seed('C20-indirect-stride', 'C20',
     [('source/RenderGraph/RunnablePasses/ComputePass.cpp', 'context->vkCmdDispatchIndirect( commandBuffer, indirectBuffer, m_cpConfig.indirectBuffer.offset );',
       'context->vkCmdDispatchIndirect( commandBuffer, indirectBuffer, index * m_cpConfig.indirectBuffer.stride );')],
     s, '''
for e in ev:
    if e['e'] == 'DispatchIndirect' and e['off'] != 48:
        fail('dispatched from', e['off'])
''', 'an indirect dispatch whose parameters are not at the start of the buffer', 'the dispatch reads its size from elsewhere')


# --- C22 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('layers')
    im = sc.image(fmt=37, ext=[16, 16, 1], mips=3, layers=3)
    v = sc.view(im, 37, 'C', [0, 3, 0, 3], vt=5)
    g = sc.graph(name='g')
    a = sc.pass_(sc.next(), g, None, 'm', kind='mips', cfg={'final': 'SHADER_RO'}, atts=[{'k': 'ioTransfer', 'views': [v]}])
    sc.op('input', id=g, view=v, lay='SHADER_RO')
    sc.op('compile', id=g, imap=[im])
    sc.op('run', id=g, wait=[])
    return sc.done()


seed('C22-previous-level-of-first-layer', 'C22',
     [('source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp', '''						, mipSubRange.baseMipLevel - 1u
						, 1u
						, mipSubRange.baseArrayLayer
''', '''						, mipSubRange.baseMipLevel - 1u
						, 1u
						, baseArrayLayer
''')],
     s, '''
lay = {}
for e in ev:
    if e['e'] == 'Barrier':
        for b in e['img']:
            m, n, l, k = b['r']
            for x in range(m, m + n):
                for y in range(l, l + k):
                    lay[(x, y)] = b['new']
bad = {k: v for k, v in lay.items() if v != lay[(2, 0)]}
if bad:
    fail('subresources left in another layout:', bad)
''', 'mipmaps generated for several array layers', 'levels of the later layers are left in the transfer source layout')


# --- C23 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('two-pairs')
    a, b, c, d = tex(sc), tex(sc), tex(sc), tex(sc)
    g = sc.graph(name='g')
    p = sc.pass_(sc.next(), g, None, 'p', kind='copy', cfg={'ext': [16, 16, 1]},
                 atts=[{'k': 'inTransfer', 'views': [a]}, {'k': 'outTransfer', 'views': [b]},
                       {'k': 'inTransfer', 'views': [c]}, {'k': 'outTransfer', 'views': [d]}])
    for v in (a, c):
        sc.op('input', id=g, view=v, lay='SHADER_RO')
    sc.op('compile', id=g)
    sc.op('run', id=g, wait=[])
    return sc.done()


seed('C23-first-source', 'C23',
     [('source/RenderGraph/RunnablePasses/ImageCopy.cpp', 'auto srcImage{ m_graph.createImage( srcAttach.data->image ) };',
       'auto srcImage{ m_graph.createImage( m_pass.images.front().view( index ).data->image ) };')],
     s, '''
copies = [e for e in ev if e['e'] == 'CopyImage']
if len(copies) != 2 or copies[0]['s'] == copies[1]['s']:
    fail('copies:', copies)
''', 'a copy pass with two pairs of images', 'the second image is copied from the first source')


# --- C25 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('volume')
    im = sc.image(fmt=37, ext=[16, 16, 4], mips=1, layers=1, type=2)
    t = sc.next()
    sc.op('trk', id=t)
    v = sc.view(im, 37, 'C', [0, 1, 0, 1], vt=2)
    sc.op('tset', id=t, view=v, lay='DST', acc=['TR_W'], st=['TR'])
    sl = sc.view(im, 37, 'C', [0, 1, 2, 1], vt=1)
    sc.op('tget', id=t, view=sl)
    return sc.done()


seed('C25-volume-with-one-level', 'C25',
     [('source/RenderGraph/FrameGraph.cpp', '''			&& ( range.levelCount == 1u
				|| range.levelCount == image.data->info.mipLevels ) )''', '''			&& range.levelCount == image.data->info.mipLevels
			&& range.baseMipLevel != 0u )''')],
     s, '''
for e in ev:
    if e['e'] == 'tget' and e['s'][0] != 'DST':
        fail('layout of a slice:', e['s'][0])
''', 'a slice of a 3D image, looked up after the whole volume was set', 'the state of the slice is lost')


# --- C29 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('memory-types', mem=[2, 1, 6, 7])
    sc.op('memtype', mask=0b1100, req=6, ctx=1)
    sc.op('memtype', mask=0b1010, req=2, ctx=1)
    return sc.done()


seed('C29-mask-of-suitable-types', 'C29',
     [('source/RenderGraph/GraphContext.cpp', '''				return i;
			}

			typeBits >>= 1;''', '''				return i;
			}

			if ( memoryProperties.memoryTypes[i].propertyFlags & requirements )
			{
				typeBits >>= 1;
			}''')],
     s, '''
got = [e['r'] for e in ev if e['e'] == 'memtype']
if got != [2, 3]:
    fail('types:', got)
''', 'a memory type which shares nothing with the request, before the suitable one', 'a memory type which the resource does not accept is chosen')


# --- C31 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('labels')
    g = sc.graph(name='g')
    h = sc.group(g, None, 'h')
    for i in range(12):
        sc.pass_(sc.next(), g, h if i > 5 else None, 'p%d' % i, kind='custom', st=['FS'])
    sc.op('compile', id=g)
    sc.op('run', id=g, wait=[])
    return sc.done()


seed('C31-label-of-variant', 'C31',
     [('source/RenderGraph/RunnablePass.cpp', '''{ "[" + std::to_string( m_pass.id ) + "] " + m_pass.getGroupName()''', '''{ "[" + std::to_string( m_pass.id % 10u ) + "] " + m_pass.getGroupName()''')],
     s, '''
names = {e['name'].split(']')[0] for e in ev if e['e'] == 'BeginLabel'}
if len(names) != 12:
    fail('labels', sorted(names))
''', 'a graph with ten passes or more', 'the label around a pass names another pass')


# --- C32 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('copy-between-levels')
    im, jm = sc.image(fmt=37, ext=[16, 16, 1], mips=3), sc.image(fmt=37, ext=[16, 16, 1], mips=3)
    a, b = sc.view(im, 37, 'C', [2, 1, 0, 1]), sc.view(jm, 37, 'C', [0, 1, 0, 1])
    c, r, cb = sc.next(), sc.next(), sc.next()
    sc.op('cache', id=c, ctx=1)
    sc.op('rc', id=r, cache=c)
    sc.op('ucb', id=cb)
    for v in (a, b):
        sc.op('rcset', id=r, view=v, lay='SHADER_RO', acc=['SH_R'], st=['FS'])
    sc.op('rcact', id=r, cb=cb, do='copy', src=a, view=b, ext=[4, 4], final='SHADER_RO')
    sc.op('rcget', id=r, view=b)
    return sc.done()


seed('C32-final-layout-range', 'C32',
     [('source/RenderGraph/RecordContext.cpp', '''				, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL
				, 1u
				, &region );

			if ( finalLayout != VK_IMAGE_LAYOUT_UNDEFINED )
			{
				recContext.memoryBarrier( commandBuffer
					, dstView.data->image
					, dstView.data->info.viewType
					, dstView.data->info.subresourceRange''', '''				, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL
				, 1u
				, &region );

			if ( finalLayout != VK_IMAGE_LAYOUT_UNDEFINED )
			{
				recContext.memoryBarrier( commandBuffer
					, dstView.data->image
					, dstView.data->info.viewType
					, srcSubresource''')],
     s, '''
last = [e for e in ev if e['e'] == 'Barrier' and e['img']][-1]
if last['img'][0]['new'] != 'SHADER_RO' or last['img'][0]['r'] != [0, 1, 0, 1] or last['img'][0]['old'] != 'DST':
    fail('last transition', last['img'])
''', 'a copy between different mip levels, with a final layout', 'another level than the copied one is put in the final layout')


# --- C33 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('late-compute')
    g = sc.graph(name='g')
    b = sc.buffer()
    p = sc.pass_(sc.next(), g, None, 'p', kind='compute', cfg={'progs': [[[32, 900]]], 'gc': [2, 1, 1], 'enptr': True},
                 atts=[{'k': 'outBuf', 'buf': b, 'off': 0, 'size': -1, 'bind': 0}], enabled=False)
    sc.op('compile', id=g)
    sc.op('set', id=p, enabled=True)
    sc.op('faulty', n=2, do={'op': 'run', 'id': g})
    sc.op('destroy', id=g)
    return sc.done()


seed('C33-initialised-too-soon', 'C33',
     [('source/RenderGraph/RunnablePass.cpp', '''		m_callbacks.initialise( passIndex );
		pass.initialised = true;''', '''		pass.initialised = true;
		m_callbacks.initialise( passIndex );''')],
     s, '''
if not any(e['e'] == 'Failed' for e in ev):
    fail('no call failed')
sets = [e for e in ev if e['e'] == 'AllocateDescriptorSets']
if not sets or sets[-1]['pool'] <= 0:
    fail('descriptors taken from no pool', sets)
if [e['ok'] for e in ev if e['e'] == 'armed'] != [False, True]:
    fail('tries', [e for e in ev if e['e'] == 'armed'])
''', 'the initialisation of a pass which fails during a frame, then another frame', 'a pass whose initialisation failed is recorded as if it had been initialised')


def s():
    sc = base('no-semaphore')
    g = sc.graph(name='g')
    sc.pass_(sc.next(), g, None, 'p', kind='custom', st=['FS'])
    sc.op('faulty', n=6, do={'op': 'compile', 'id': g})
    sc.op('run', id=g)
    sc.op('destroy', id=g)
    return sc.done()


seed('C33-registered-before-checked', 'C33',
     [('source/RenderGraph/RunnablePass.cpp', '''			checkVkResult( res, baseName + " - Semaphore creation" );
			crgRegisterObject( context, baseName, semaphore );''', '''			crgRegisterObject( context, baseName, semaphore );
			checkVkResult( res, baseName + " - Semaphore creation" );''')],
     s, '''
if [e['call'] for e in ev if e['e'] == 'Failed'] != ['CreateSemaphore']:
    fail('another call failed', [e for e in ev if e['e'] == 'Failed'])
for e in ev:
    if e['e'] == 'leaks' and e['items']:
        fail('leaks', e['items'])
''', 'the creation of the semaphore of a pass fails while a graph is compiled', 'an object that was never created is reported as leaked')


# --- C26 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('merge-levels')
    im = sc.image(fmt=37, ext=[16, 16, 1], mips=4)
    vs = [sc.view(im, 37, 'C', r) for r in ([2, 1, 0, 1], [0, 1, 0, 1], [1, 1, 0, 1])]
    g = sc.graph(name='g')
    p = sc.pass_(sc.next(), g, None, 'p', kind='custom', st=['FS'])
    sc.op('merge', id=sc.next(), **{'pass': p}, views=vs, mm=True, ml=False)
    return sc.done()


seed('C26-levels-counted-from-last', 'C26',
     [('source/RenderGraph/FramePass.cpp', '''					data.info.subresourceRange.baseMipLevel = std::min( view.data->info.subresourceRange.baseMipLevel
						, data.info.subresourceRange.baseMipLevel );
					data.info.subresourceRange.levelCount = maxLevel - data.info.subresourceRange.baseMipLevel;''', '''					data.info.subresourceRange.levelCount = maxLevel - data.info.subresourceRange.baseMipLevel;
					data.info.subresourceRange.baseMipLevel = std::min( view.data->info.subresourceRange.baseMipLevel
						, data.info.subresourceRange.baseMipLevel );''')],
     s, '''
for e in ev:
    if e['e'] == 'merge' and e['d']['r'] != [0, 3, 0, 1]:
        fail('merged range', e['d']['r'])
''', 'views merged in an order other than that of their levels', 'the merged view does not cover all the merged levels')


# --- C11 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('stencil-only')
    d = sc.view(sc.image(fmt=130, ext=[16, 16, 1]), 130, 'S', [0, 1, 0, 1])
    g = sc.graph(name='g')
    sc.pass_(sc.next(), g, None, 'p', kind='quad', cfg={'progs': [[[1, 900], [16, 901]]], 'size': [16, 16]}, atts=[{'k': 'outStencil', 'views': [d]}])
    sc.op('compile', id=g)
    sc.op('run', id=g, wait=[])
    return sc.done()


seed('C11-stencil-stored-as-depth', 'C11',
     [('source/RenderGraph/RunnablePasses/RenderPassHolder.cpp', ', attach.getStencilStoreOp()\n', ', attach.getStoreOp()\n')],
     s, '''
for e in ev:
    if e['e'] == 'CreateRenderPass' and e['atts'][0]['sstore'] != 0:
        fail('the stencil content is not stored', e['atts'])
''', 'an attachment which is an output by its stencil aspect only', 'the stencil written by the pass is not stored')


# --- C13 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('two-formats')
    im = sc.image(fmt=37, ext=[16, 16, 1], flags=8)
    for f in (37, 43):
        sc.view(im, f, 'C', [0, 1, 0, 1])
    return sc.done()


seed('C13-views-of-the-same-range', 'C13',
     [('include/RenderGraph/ImageViewData.hpp', '''			&& lhs.viewType == rhs.viewType
			&& lhs.format == rhs.format
''', '''			&& lhs.viewType == rhs.viewType
''')],
     s, '''
ids = [(e['lid'], e['d']['fmt']) for e in ev if e['e'] == 'view']
if len({i for i, _ in ids}) != 2 or [f for _, f in ids] != [37, 43]:
    fail('views:', ids)
''', 'two views of the same subresources, with different formats', 'the second view is replaced by the first one')


# --- C15 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('twice')
    g = sc.graph(name='g')
    sc.pass_(sc.next(), g, None, 'p', kind='custom', st=['FS'])
    sc.op('compile', id=g)
    for _ in range(3):
        sc.op('run', id=g, wait=[])
    return sc.done()


seed('C15-record-while-executing', 'C15',
     [('source/RenderGraph/RunnableGraph.cpp', '''			m_fence.wait( 0xFFFFFFFFFFFFFFFFULL );
			m_context.vkResetCommandBuffer( m_commandBuffer, 0u );
''', '''			m_context.vkResetCommandBuffer( m_commandBuffer, 0u );
			m_fence.wait( 0xFFFFFFFFFFFFFFFFULL );
''')],
     s, '''
pending = set()
for e in ev:
    if e['e'] == 'QueueSubmit':
        pending |= {c for x in e['subs'] for c in x['cbs']}
    if e['e'] == 'WaitForFences':
        pending.clear()
    if e['e'] in ('ResetCommandBuffer', 'BeginCommandBuffer') and e['cb'] in pending:
        fail(e['e'], 'of a command buffer which is executing')
''', 'a second run of a graph', 'the command buffer is reset while the previous submission may still be executing it')


# --- C21 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('moved-quad')
    v = tex(sc)
    g = sc.graph(name='g')
    sc.pass_(sc.next(), g, None, 'p', kind='quad', cfg={'progs': [[[1, 900], [16, 901]]], 'size': [8, 8], 'pos': [4, 2]}, atts=[{'k': 'outColour', 'views': [v]}])
    sc.op('compile', id=g)
    sc.op('run', id=g, wait=[])
    return sc.done()


seed('C21-scissor-at-origin', 'C21',
     [('source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp', 'scissor = { { m_config.renderPosition.x, m_config.renderPosition.y }', 'scissor = { { m_config.renderPosition.x, m_config.renderPosition.x }')],
     s, '''
for e in ev:
    if e['e'] == 'CreateGraphicsPipeline':
        if e['vps'][0][:4] != e['scs'][0]:
            fail('viewport', e['vps'], 'scissor', e['scs'])
''', 'a quad pass rendered away from the origin, at different abscissa and ordinate', 'the quad is cut')


# --- C24 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('read-twice')
    v = tex(sc)
    g = sc.graph(name='g')
    a = sc.pass_(sc.next(), g, None, 'a', kind='custom', st=['FS'], atts=[{'k': 'outColour', 'views': [v]}])
    b = sc.pass_(sc.next(), g, None, 'b', kind='custom', st=['FS'], atts=[{'k': 'sampled', 'views': [v], 'bind': 0}, {'k': 'inTransfer', 'views': [v]}])
    sc.op('dep', id=b, on=a)
    sc.op('compile', id=g)
    sc.op('transitions', id=g)
    return sc.done()


seed('C24-merged-by-pass', 'C24',
     [('source/RenderGraph/AttachmentTransition.cpp', '''		return match( *lhs.data.data, *rhs.data.data )
			&& lhs.outputAttach == rhs.outputAttach
			&& lhs.inputAttach == rhs.inputAttach;''', '''		return match( *lhs.data.data, *rhs.data.data )
			&& lhs.outputAttach == rhs.outputAttach
			&& lhs.inputAttach.pass == rhs.inputAttach.pass;''')],
     s, '''
for e in ev:
    if e['e'] == 'transitions':
        got = [x for x in e['t']['v'] if x[0] and x[1]]
        if len(got) != 2:
            fail('transitions', e['t']['v'])
''', 'a pass which uses a view through two attachments', 'one of the transitions towards the pass is missing')


# --- C27 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('transfer-both-ways')
    b = sc.buffer()
    g = sc.graph(name='g')
    a = sc.pass_(sc.next(), g, None, 'a', kind='custom', st=['FS'], atts=[{'k': 'ioTBuf', 'buf': b, 'off': 0, 'size': -1}])
    c = sc.pass_(sc.next(), g, None, 'b', kind='custom', st=['FS'], atts=[{'k': 'inBuf', 'buf': b, 'off': 0, 'size': -1, 'bind': 0}])
    sc.op('dep', id=c, on=a)
    sc.op('compile', id=g)
    sc.op('run', id=g, wait=[])
    return sc.done()


seed('C27-transfer-both-ways', 'C27',
     [('source/RenderGraph/Attachment.cpp', '''		else if ( isTransfer() )
		{
			if ( isInput )
			{
				result |= VK_ACCESS_TRANSFER_READ_BIT;
			}

			if ( isOutput )
			{
				result |= VK_ACCESS_TRANSFER_WRITE_BIT;
			}
		}''', '''		else if ( isTransfer() )
		{
			if ( isInput )
			{
				result |= VK_ACCESS_TRANSFER_READ_BIT;
			}
			else if ( isOutput )
			{
				result |= VK_ACCESS_TRANSFER_WRITE_BIT;
			}
		}''')],
     s, '''
got = [b['sa'] for e in ev if e['e'] == 'Barrier' for b in e['buf'] if 'SH_R' in b['da']]
if not got or 'TR_W' not in got[-1]:
    fail('accesses waited for before the buffer is read:', got)
''', 'a buffer attachment which is both source and destination of transfers', 'the write of the transfer is not made visible to the next pass')


# --- C28 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('recorded-alone')
    g = sc.graph(name='g')
    p = sc.pass_(sc.next(), g, None, 'p', kind='custom', st=['FS'], resettable=True)
    sc.op('compile', id=g)
    sc.op('run', id=g)
    sc.op('rerecord', id=p)
    sc.op('destroy', id=g)
    sc.op('dropctx', id=1)
    return sc.done()


seed('C28-commands-still-registered', 'C28',
     [('source/RenderGraph/RunnablePass.cpp', '			crgUnregisterObject( context, commandBuffer.commandBuffer );\n', '')],
     s, '''
if not any(e['e'] == 'rerecorded' for e in ev):
    fail('not recorded alone')
for e in ev:
    if e['e'] == 'leaks' and e['items']:
        fail('reported as leaked:', e['items'])
''', 'a pass recorded on its own, and then destroyed', 'a command buffer which was freed is reported as leaked')


# --- C30 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('reader-of-a-buffer')
    b = sc.buffer()
    g = sc.graph(name='g')
    h = sc.group(g, None, 'h')
    a = sc.pass_(sc.next(), g, h, 'a', kind='custom', st=['FS'], atts=[{'k': 'outBuf', 'buf': b, 'off': 0, 'size': -1, 'bind': 0}])
    c = sc.pass_(sc.next(), g, h, 'b', kind='custom', st=['FS'], atts=[{'k': 'inBuf', 'buf': b, 'off': 0, 'size': -1, 'bind': 0}])
    sc.op('dep', id=c, on=a)
    sc.op('compile', id=g)
    sc.op('dot', id=g, what='transitions', colours=False, ids=False, groups=True, split=False)
    return sc.done()


seed('C30-reader-not-declared', 'C30',
     [('source/RenderGraph/DotExport.cpp', '''				for ( auto & transition : transitions.bufferTransitions )
				{
					displayAttachPass( transition.outputAttach, groups, config );
					displayAttachPass( transition.inputAttach, groups, config );
''', '''				for ( auto & transition : transitions.bufferTransitions )
				{
					displayAttachPass( transition.outputAttach, groups, config );
''')],
     s, '''
for e in ev:
    if e['e'] == 'dot' and e['text'].count('"h/b" [ shape') != 1:
        fail('declarations of the reader:', e['text'])
''', 'a pass which only reads buffers', 'the pass is missing from the exported graph')


# --- C04 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('second-variant')
    v0, v1 = tex(sc), tex(sc)
    g = sc.graph(name='g')
    a = sc.pass_(sc.next(), g, None, 'a', kind='render', cfg={'size': [16, 16]}, atts=[{'k': 'outColour', 'views': [v0, v1]}], maxpass=2, index=1)
    b = sc.pass_(sc.next(), g, None, 'b', kind='custom', st=['FS'], atts=[{'k': 'sampled', 'views': [v1]}])
    c = sc.pass_(sc.next(), g, None, 'c', kind='custom', st=['TR'], atts=[{'k': 'inTransfer', 'views': [v1]}])
    sc.op('dep', id=b, on=a)
    sc.op('dep', id=c, on=b)
    sc.op('compile', id=g)
    for _ in range(4):
        sc.op('run', id=g, wait=[])
    return sc.done()


seed('C04-attachments-of-first-variant', 'C04',
     [('source/RenderGraph/RunnablePasses/RenderPassHolder.cpp', "		m_currentPass = &m_passes[m_index];\n", "		m_currentPass = &m_passes.front();\n")],
     s, '''
for e in ev:
    if e['e'] == 'Barrier':
        for i in e['img']:
            if i['new'] == 'SHADER_RO':
                fail('the rendered image is transitioned from a layout it is not in:', i['old'])
''', 'a render pass with several variants, recorded with another one than the first',
     'the image rendered to is considered to still be in the layout it had before')


# --- C06 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('untouched-output')
    v = tex(sc)
    g = sc.graph(name='g')
    sc.pass_(sc.next(), g, None, 'a', kind='custom', st=['FS'], enabled=False, atts=[{'k': 'outTransfer', 'views': [v]}])
    sc.pass_(sc.next(), g, None, 'b', kind='custom', st=['FS'])
    sc.op('output', id=g, view=v, lay='SHADER_RO')
    sc.op('compile', id=g)
    sc.op('run', id=g, wait=[])
    sc.op('final', id=g, view=v, index=0)
    return sc.done()


seed('C06-final-is-wanted', 'C06',
     [('source/RenderGraph/FrameGraph.cpp', """		if ( view.data->source.empty() )
		{
			return getFinalLayoutState( view.data->image
""", """		if ( view.data->source.empty() )
		{
			if ( auto wanted = getOutputLayoutState( view );
				wanted.layout != VK_IMAGE_LAYOUT_UNDEFINED )
			{
				return wanted;
			}

			return getFinalLayoutState( view.data->image
""")],
     s, '''
for e in ev:
    if e['e'] == 'final' and e['lay'] != 'UNDEF':
        fail('layout', e['lay'], 'reported for an image no frame has used')
''', 'an output of the graph, which the recorded frame does not use because its pass is disabled',
     'the layout wanted for the output is reported, instead of the one the image is in')


# --- C12 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('two-variants')
    v0, v1 = tex(sc), tex(sc)
    g = sc.graph(name='g')
    a = sc.pass_(sc.next(), g, None, 'a', kind='render', cfg={'size': [16, 16]}, atts=[{'k': 'outColour', 'views': [v0, v1]}], maxpass=2)
    sc.op('compile', id=g)
    sc.op('run', id=g, wait=[])
    sc.set(a, enabled=True, index=1)
    sc.op('run', id=g, wait=[])
    return sc.done()


seed('C12-only-last-variant', 'C12',
     [('source/RenderGraph/RunnablePasses/RenderPassHolder.cpp', """		for ( auto & data : m_passes )
		{
			data.cleanup( m_context );
		}
""", """		if ( auto index = m_index; index < m_passes.size() )
		{
			m_passes[index].cleanup( m_context );
		}
""")],
     s, '''
live = set()
for e in ev:
    if e['e'] in ('CreateRenderPass', 'CreateFramebuffer'):
        live.add(e['h'])
    if e['e'] in ('DestroyRenderPass', 'DestroyFramebuffer'):
        live.discard(e['h'])
if live:
    fail('never destroyed:', live)
''', 'a render pass which was recorded with several of its variants', 'the render pass and the framebuffers of the other variants leak')


# --- C16 -------------------------------------------------------------------------------------------------------------
def s():
    sc = base('reset-between-frames')
    v = tex(sc)
    g = sc.graph(name='g')
    p = sc.pass_(sc.next(), g, None, 'p', kind='quad', resettable=True, cfg={'progs': [[[1, 900], [16, 901]]], 'size': [16, 16]}, atts=[{'k': 'outColour', 'views': [v]}])
    sc.op('compile', id=g)
    sc.op('run', id=g, wait=[])
    sc.op('resetPipe', id=p, index=0, prog=[])
    sc.op('run', id=g, wait=[])
    return sc.done()


seed('C16-reset-to-the-same-program', 'C16',
     [('source/RenderGraph/RunnablePasses/PipelineHolder.cpp', """				} );
			m_pipelines[index] = {};
		}
""", """				} );

			if ( !config.empty() )
			{
				m_pipelines[index] = {};
			}
		}
""")],
     s, '''
used, gone = set(), set()
for e in ev:
    if e['e'] == 'DestroyPipeline':
        gone.add(e['h'])
    if e['e'] == 'BindPipeline':
        used.add(e['p'])
    if e['e'] == 'QueueSubmit' and used & gone:
        fail('a frame is submitted which uses a pipeline destroyed since its recording')
    if e['e'] == 'BeginCommandBuffer':
        used = set()
''', 'a pipeline reset without giving a new program', 'the pipeline is destroyed, and still used by the next frames')


# --- C34 -------------------------------------------------------------------------------------------------------------
def asked(before, progs, most=45):
    """the requests of threads, the first one being left for the other at each of its points"""
    import threads
    return [dict(threads.scenario(k, progs, [[0, k]], before)) for k in range(1, most)]


def left_at(g):
    """two graphs waiting for semaphores of their own, run by two threads"""
    out = []
    for k in range(1, 400, 3):
        both = []
        for _ in range(2):
            sc = base('waits')
            v = tex(sc)
            sem = sc.next()
            sc.op('sem', id=sem)
            gr = sc.graph(name='g')
            p = sc.pass_(sc.next(), gr, None, 'p', kind='custom', atts=[{'k': 'outStorage', 'views': [v], 'bind': 0}])
            sc.op('compile', id=gr)
            sc.op('run', id=gr, wait=[[sem, ['TR']]])
            both.append(sc.done())
        out.append(dict(both[0], s=k, extra={'with': both[1]['ops'], 'pre': [[0, k]]}))
    return out


seed('C34-view-described-twice', 'C34',
     [('source/RenderGraph/ResourceHandler.cpp', """		lock_type lock( m_viewsMutex );
		auto it = std::find_if( m_imageViewIds.begin()
			, m_imageViewIds.end()
			, [&view]( ImageViewIdDataOwnerCont::value_type const & lookup )
			{
				return *lookup.second == view;
			} );
		ImageViewId result{};

		if ( it == m_imageViewIds.end() )
		{
			auto data = std::make_unique< ImageViewData >( view );
			result""", """		auto findView = [this, &view]()
		{
			lock_type lock( m_viewsMutex );
			return std::find_if( m_imageViewIds.begin()
				, m_imageViewIds.end()
				, [&view]( ImageViewIdDataOwnerCont::value_type const & lookup )
				{
					return *lookup.second == view;
				} );
		};
		auto it = findView();
		ImageViewId result{};

		if ( it == m_imageViewIds.end() )
		{
			auto data = std::make_unique< ImageViewData >( view );
			lock_type lock( m_viewsMutex );
			result""")],
     lambda: asked([], [[{'k': 'newview', 'id': 3}], [{'k': 'newview', 'id': 3}]]), '''
ids = []
for e in ev:
    if e['e'] == 'scen':
        ids = []
    if e['e'] == 'ret':
        ids.append((e['h'], e['x']))
        if len(set(ids)) > 1:
            fail('two identifiers for one view', ids)
''', 'two threads asking for the same view, the second one between the search and the creation of the first', 'one view has two identifiers, hence two device objects')

seed('C34-view-handed-out-while-destroyed', 'C34',
     [('source/RenderGraph/ResourceHandler.cpp', """			if ( context.vkDestroyImageView && it->second )
			{
				context.vkDestroyImageView( context.device, it->second, context.allocator );
			}

			m_imageViews.erase( it );
""", """			auto imageView = it->second;
			// The others don't have to wait for the device
			lock.unlock();

			if ( context.vkDestroyImageView && imageView )
			{
				context.vkDestroyImageView( context.device, imageView, context.allocator );
			}

			lock.lock();
			m_imageViews.erase( viewId );
""")],
     lambda: asked(['view1'], [[{'k': 'dropview', 'id': 1}], [{'k': 'view', 'id': 1}]]), '''
gone, asked = set(), {}
for e in ev:
    if e['e'] == 'scen':
        gone = set()
    if e['e'] == 'inv':
        asked[e['th']] = set(gone)
    if e['e'] == 'DestroyImageView':
        if e['h'] in gone:
            fail('view destroyed twice', e)
        gone.add(e['h'])
    if e['e'] == 'ret' and e['k'] == 'view' and e['h'] in asked[e['th']]:
        fail('given a view destroyed before it was asked for', e)
''', 'a thread asking for a view while another one has it destroyed', 'the first one is given a view which is already destroyed')

seed('C34-one-call-stack-for-all', 'C34',
     [('source/RenderGraph/GraphContext.cpp', """		std::stringstream callStack;
""", """		static std::stringstream callStack;
		callStack.str( {} );
""")],
     lambda: asked([], [[{'k': 'reg', 'id': 1}], [{'k': 'sampler', 'id': 0}]]), '''
for e in ev:
    if e['e'] == 'leaks':
        for t, n, st in e['items']:
            if st.strip() != 'call of thread %d' % (0 if t == 'VkImage' else 1):
                fail('the leak of', t, n, 'is told with the call stack', repr(st))
''', 'an object registered by a thread while another one, with a call stack callback, registers another', 'leaks are reported with the call stack of another object')

seed('C34-waits-of-another-frame', 'C34',
     [('source/RenderGraph/RunnableGraph.cpp', """		std::vector< VkSemaphore > semaphores;
		std::vector< VkPipelineStageFlags > dstStageMasks;
		convert""", """		// Allocated once and for all, rather than at each frame.
		static std::vector< VkSemaphore > semaphores;
		static std::vector< VkPipelineStageFlags > dstStageMasks;
		semaphores.clear();
		dstStageMasks.clear();
		convert""")],
     lambda: left_at(0), '''
for i, e in enumerate(ev):
    if e['e'] == 'runBegin':
        waits = {}
    if e['e'] == 'scen':
        want = {}
    if e['e'] == 'sem' and 'th' in e:
        want[e['th']] = e['h']
    if e['e'] == 'QueueSubmit':
        w = e['subs'][0]['waits']
        if w != [want[e['th']]]:
            fail('the frame of thread', e['th'], 'waits for', w, 'instead of', want[e['th']])
''', 'two graphs run by two threads, one of them between its preparation and its submission', 'a frame waits for the semaphores of another one')
