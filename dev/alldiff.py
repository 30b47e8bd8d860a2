"""prints which properties report, for the tree at $VERIF_REPO"""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.setrecursionlimit(30000)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import threading
def main():
    from sa import engine, spec
    run = engine.Run()
    run.only_changed = bool(os.environ.get("FAST"))
    hits = {}
    know = {(p, k) for p, k, t in engine.load_findings(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))}
    for p in spec.PROPS:
        try:
            v, st, notes = engine.decide(p.id, "quick", "", run)
        except engine.Broken as e:
            print("BROKEN", p.id, e); continue
        v = [(k, t) for k, t in v if (p.id, k.replace(" ", "_")) not in know]
        if v:
            hits[p.id] = v
    want = sys.argv[2] if len(sys.argv) > 2 else None
    print(sys.argv[1], want, "CAUGHT" if want in hits else "MISSED" if want else "", sorted(hits), flush=True)
    if "-v" in sys.argv:
        for p, v in hits.items():
            for k, t in v[:4]:
                print("  ", p, k); print("     ", t[:1500].replace("\n", "\n      "))
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main); t.start(); t.join()
