"""Development aid (VH_COV=<folder>): which lines of the code under test a check executes."""
import os, pickle, sys

HIT = set()


def start(repo):
    m = sys.monitoring
    tid = m.COVERAGE_ID
    m.use_tool_id(tid, "vh")
    pre = repo.rstrip("/") + "/"

    def line(code, no):
        f = code.co_filename
        if f.startswith(pre):
            HIT.add((f[len(pre):], no))
        return m.DISABLE
    m.register_callback(tid, m.events.LINE, line)
    m.set_events(tid, m.events.LINE)


def dump():
    d = os.environ["VH_COV"]
    p = os.path.join(d, "%d.pkl" % os.getpid())
    with open(p, "wb") as f:
        pickle.dump(HIT, f)
