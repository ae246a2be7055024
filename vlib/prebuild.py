import sys, os, importlib, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from registry import REG
jobs = []
for m in dict.fromkeys(m for m, _ in REG.values()):
    M = importlib.import_module(m)
    if hasattr(M, 'BUILDS'): jobs += M.BUILDS
with cf.ThreadPoolExecutor(6) as ex:
    rs = [ex.submit(lambda j=j: core.build(j[0], **j[1])) for j in jobs]
    for r in rs:
        print(r.result())
