"""The I/O adaptors of io.cpp (C21)."""
SPEC = {'D': dict(range=(0, 255), stream=True), 'PX': dict(range=(1, 255), stream=True)}
HARNESSES = {h: ['C21'] for h in ('harness_rw', 'harness_spy_reader', 'harness_spy_writer', 'harness_file_close', 'harness_file_open', 'harness_file_read', 'harness_file_write')}
OPTS = dict(positions=('g_fpos', 'g_fout'))
