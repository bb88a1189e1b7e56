"""The in-memory pipe of io.cpp under monitor reasoning (C05)."""
SPEC = {'S': dict(range=(0, 255), stream=True), 'W': dict(range=(0, 255), stream=True)}
HARNESSES = {h: ['C05'] for h in ('harness_init', 'harness_read', 'harness_write', 'harness_close', 'harness_isopen')}
OPTS = dict(positions=('g_cur',), cand_fns=('cand_inv', 'cand_wants',))
