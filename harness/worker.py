import importlib, json, os, sys, traceback, signal, resource

def main():
    module, cfile, out, sel = sys.argv[1:5]
    resource.setrlimit(resource.RLIMIT_DATA, (3 << 30, 3 << 30))       # code that eats all memory crashes
    try:
        sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
        m = importlib.import_module('props.' + module)
        cases = json.load(open(cfile))
        if hasattr(m, 'prepare'):
            m.prepare()
    except BaseException:
        # the code under test cannot even be imported
        traceback.print_exc()
        os._exit(98)
    idx = list(range(int(sel[1:].split(':')[0]), len(cases), int(sel[1:].split(':')[1]))) if sel[0] == '@' else [int(i) for i in sel.split(',')]
    with open(out, 'a') as f:
        for i in idx:
            f.write(json.dumps({'start': i}) + '\n')
            f.flush()
            try:
                rec = m.run_case(cases[i])
                rec.setdefault('outcome', 'ok')
                s = json.dumps({'i': i, 'rec': rec}, allow_nan=False)
                if len(s) > 16 << 20:      # a thousand times what any case of this check may produce
                    s = json.dumps({'i': i, 'rec': {'outcome': 'crash', 'detail': 'the observation of one execution takes %d bytes' % len(s)}})
            except MemoryError:
                raise
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = [t for t in tb if '/pyclustering/' in t.filename]
                s = json.dumps({'i': i, 'rec': {'outcome': 'raise', 'detail': '%s: %s' % (type(e).__name__, e),
                                                'where': '%s:%d' % (os.path.basename(where[-1].filename), where[-1].lineno) if where else 'harness',
                                                'tb': traceback.format_exc()[-1500:]}})
            f.write(s + '\n')
            f.flush()
    os._exit(0)

main()
