"""The properties: which contract instances they are decided on and which obligations count."""
SAFETY = ('bounds-read', 'bounds-write', 'null-deref', 'use-after-free', 'double-free', 'bad-free', 'free-match', 'uninit', 'abort', 'alloc-size',
          'overflow', 'shift', 'div-zero', 'align', 'memcpy-overlap', 'termination')
FUNC = ('status', 'meta', 'value', 'result', 'ownership', 'no-output')
# obligations that belong to the cross-cutting properties, not to an operation's own one
CROSS = ('leak', 'frame', 'fresh', 'alloc-status', 'alloc-output', 'alloc-leak')
ALL_OPS = None
NO_ALLOC = ('index', 'types', 'resolve')   # operations that never allocate


class P:
    def __init__(self, id, props, kinds, ckinds, alloc=False, title='', select=None, budget=1.0):
        self.id, self.props, self.kinds, self.ckinds, self.alloc, self.title = id, props, kinds, ckinds, alloc, title
        self.select = select
        self.budget = budget

    def counts(self, kind):
        return kind in self.kinds if self.kinds else kind not in CROSS

    def instances(self, build, thorough):
        return [i for i in build if (self.props is None or i.prop in self.props) and (thorough or i.quick) and
                (thorough or self.select is None or self.select(i)) and not (self.alloc and i.prop in NO_ALLOC)]


def own(id, *props, **k):
    # an operation's own property: result, status and every run-time obligation on the way
    return P(id, props, None, ('safety', 'termination', 'status', 'meta', 'value', 'result', 'ownership', 'no-output', 'destroy'), **k)


def lite(i):
    """one representative data type per operation and shape for the properties that range over all operations"""
    import re
    m = re.search(r'\[(?:avg,|max,)?(\w+?)(?:->(\w+))?[,\]/]', i.name)
    if i.prop == 'cast':
        return (m.group(1), m.group(2)) in (('float', 'int32'), ('int8', 'uint64'), ('double', 'uint8'), ('uint16', 'float')) or i.name.endswith('r2]') and m.group(1) == 'float'
    if i.prop in ('arith',):
        return ('[float' in i.name or '[int32' in i.name) and not i.name.startswith(('sub', 'mul'))
    if i.prop == 'binary_checks':
        return i.name.startswith('add') or i.name.startswith('div') and '/float' in i.name
    if i.prop in ('broadcast', 'index'):
        return True
    return True


PROPS = [
    own('P01', 'create'),
    own('P02', 'destroy'),
    own('P03', 'resolve'),
    own('P04', 'types'),
    own('P05', 'index'),
    own('P06', 'broadcast'),
    own('P07', 'full'),
    own('P08', 'cast'),
    own('P09', 'reshape'),
    own('P10', 'squeeze'),
    own('P11', 'slice'),
    own('P12', 'duplicate'),
    own('P13', 'arith'),
    own('P14', 'binary_checks'),
    own('P15', 'matmul'),
    own('P16', 'dot'),
    own('P17', 'relu'),
    own('P18', 'sigmoid_tanh'),
    own('P19', 'sqrt'),
    own('P20', 'softmax'),
    own('P21', 'conv'),
    own('P22', 'pooling'),
    own('P23', 'batch_norm'),
    own('P24', 'dropout'),
    P('P25', ALL_OPS, SAFETY, ('safety', 'termination'), select=lite),
    P('P26', ALL_OPS, ('frame', 'fresh'), ('frame', 'fresh'), select=lite),
    P('P27', ALL_OPS, ('leak', 'ownership'), ('leak', 'ownership', 'destroy'), select=lite),
    P('P28', ALL_OPS, SAFETY + ('alloc-status', 'alloc-output', 'alloc-leak'), ('alloc', 'safety', 'termination'), alloc=True, select=lite),
    P('P29', ALL_OPS, ('no-output', 'status'), ('no-output', 'status'), select=lite),
]
BY_ID = {p.id: p for p in PROPS}
