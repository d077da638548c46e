"""usage: run.py CID scenarios.json trace.ndjson stats.json"""
import importlib, json, os, sys, time, traceback, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')
import lib
cid, fin, fout, fstat = sys.argv[1:5]
t0 = time.time()
scn = json.load(open(fin))
rec = lib.Recorder(fout)
mod = importlib.import_module(cid.lower())
for i, s in enumerate(scn):
    with open(fout + '.at', 'w') as f:
        f.write(str(i))
    try:
        mod.run([s], rec)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # noqa: the scenario needs a result of a call that raised
        traceback.print_exc()
        rec.trace([dict(op='failed', err=lib.err(f'{type(e).__name__}: {e}')['err'])], s)
rec.close()
json.dump(dict(traces=rec.n, events=rec.events, ops=rec.ops, wall=time.time() - t0),
          open(fstat, 'w'))
