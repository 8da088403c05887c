"""What a declared attachment means: the interface of the library, as data."""

# kind -> (use, input, output, clearable)
IMG = {
    'sampled': ('sampled', True, False, False),
    'implC': ('impl', True, False, False), 'implD': ('impl', True, False, False), 'implDS': ('impl', True, False, False),
    'inStorage': ('storage', True, False, False), 'outStorage': ('storage', False, True, False),
    'clrStorage': ('storage', False, True, True), 'ioStorage': ('storage', True, True, False),
    'inTransfer': ('transfer', True, False, False), 'outTransfer': ('transfer', False, True, False),
    'ioTransfer': ('transfer', True, True, False), 'clrTransfer': ('transfer', True, True, True),
    'ioTransferNT': ('none', True, True, False),
    'inColour': ('colour', True, False, False), 'ioColour': ('colour', True, True, False), 'outColour': ('colour', False, True, False),
    'inDepth': ('depth', True, False, False), 'ioDepth': ('depth', True, True, False), 'outDepth': ('depth', False, True, False),
    'inStencil': ('stencil', True, False, False), 'ioStencil': ('stencil', True, True, False), 'outStencil': ('stencil', False, True, False),
    'inDS': ('ds', True, False, False), 'ioDS': ('ds', True, True, False), 'outDS': ('ds', False, True, False),
}
BUF = {
    'implBuf': ('impl', True, False, False), 'implBufView': ('impl', True, False, False),
    'uniform': ('uniform', True, False, False), 'uniformView': ('uniform', True, False, False),
    'inBuf': ('storage', True, False, False), 'outBuf': ('storage', False, True, False), 'clrBuf': ('storage', False, True, True), 'ioBuf': ('storage', True, True, False),
    'inBufView': ('storage', True, False, False), 'outBufView': ('storage', False, True, False), 'clrBufView': ('storage', False, True, True), 'ioBufView': ('storage', True, True, False),
    'inTBuf': ('transfer', True, False, False), 'outTBuf': ('transfer', False, True, False), 'ioTBuf': ('transfer', True, True, False), 'clrTBuf': ('transfer', True, True, True),
}
COLOUR = (37, 44, 97, 109)
PLANES = {124: 'D', 125: 'D', 126: 'D', 127: 'S', 128: 'DS', 129: 'DS', 130: 'DS'}
ATTACHED = ('colour', 'depth', 'stencil', 'ds')


def planes(fmt):
    return PLANES.get(fmt, 'C')


def layout_of(kind, wanted, sep, aspect):
    """layout an image attachment kind asks for"""
    use, i, o, _ = IMG[kind]
    if use == 'sampled':
        return 'SHADER_RO'
    if use == 'impl':
        return wanted
    if use == 'storage':
        return 'GENERAL'
    if use == 'transfer':
        return 'DST' if o else 'SRC'
    if use == 'colour':
        return 'COLOR'
    if use in ('depth', 'stencil', 'ds'):
        if not sep or use == 'ds':
            return 'DS_ATT' if o else 'DS_RO'
        return {'depth': 'D', 'stencil': 'S'}[use] + ('_ATT' if o else '_RO')
    return ''


def access_of(use, i, o):
    t = {'sampled': ('SH_R', 'SH_W'), 'storage': ('SH_R', 'SH_W'), 'transfer': ('TR_R', 'TR_W'), 'uniform': ('UNIFORM', ''),
         'colour': ('CO_R', 'CO_W'), 'depth': ('DS_R', 'DS_W'), 'stencil': ('DS_R', 'DS_W'), 'ds': ('DS_R', 'DS_W')}[use]
    return ([t[0]] if i else []) + ([t[1]] if o else [])


def stage_of(use, compute):
    if use == 'transfer':
        return ['TR']
    if use == 'colour':
        return ['CO']
    if use in ATTACHED:
        return ['EF', 'LF']
    return ['CS'] if compute else ['FS']
