import sys, os, glob, time, importlib.util, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cast, driver, reg
from driver import verify
def load_specs():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")
    for f in sorted(glob.glob(d + "/*.py")):
        sp = importlib.util.spec_from_file_location("spec_" + os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
def work(n):
    return n, verify(U, reg.FNS, reg.FNS[n])
if __name__ == "__main__":
    load_specs()
    U = cast.Unit("/tmp/w/scr")
    names = [n for n in reg.FNS if not sys.argv[1:] or any(a == n or a in reg.FNS[n].props or (a.endswith("*") and n.startswith(a[:-1])) for a in sys.argv[1:])]
    os.environ.setdefault("SPVC_JOBS", "3")
    t0 = time.time()
    if len(names) == 1: rs = map(work, names)
    else: rs = mp.get_context("fork").Pool(8).imap(work, names, chunksize=1)
    tot = 0
    for n, r in rs:
        tot += len(r.obls)
        print(("ok  " if r.ok else "FAIL"), n, r.error or "", f"{r.time:.1f}s", len(r.obls), "h%s" % r.info.get("hlevel"), r.info.get("inv", ""))
        for o in r.failed[:12]: print("     ", o.status, o.name())
    print("total", tot, round(time.time() - t0, 1))
