"""Which lines of the code under test a check runs (only used with VERIF_COV=DIR, see tools/mutate.py)."""
import os
import sys

LINES = set()


def start(repo):
    m = sys.monitoring
    tool = m.COVERAGE_ID
    m.use_tool_id(tool, 'coverlines')
    base = repo.rstrip('/') + '/'

    def line(code, number):
        if code.co_filename.startswith(base):
            LINES.add((code.co_filename[len(base):], number))
        return m.DISABLE

    m.register_callback(tool, m.events.LINE, line)
    m.set_events(tool, m.events.LINE)


def dump(folder):
    with open(os.path.join(folder, str(os.getpid())), 'w') as f:
        for name, number in sorted(LINES):
            f.write('%s %d\n' % (name, number))
