import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import ctx as C

def main():
    if sys.argv[1:2] == ['--setup']:
        C.build_extractor(); print('extractor ready'); return 0
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    c = C.Ctx(pid, tier)
    try:
        mod = importlib.import_module('sa.props.' + pid.lower())
        try: mod.run(c)
        except C.Broken: raise
        except Exception: c.add('analysis', 'analysis', '', 'undecided', 'analysis stopped: ' + traceback.format_exc()[-2000:])
        if not getattr(c, 'parts', False):
            from sa.props.common import instances
            instances(c, mod.run)
        return c.finish()
    except C.Broken as e:
        print('analysis broken: %s' % e); return 2
    except Exception:
        traceback.print_exc(); return 2
    finally:
        c.close()
if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    r = [2]
    def go(): r[0] = main()
    t = threading.Thread(target=go); t.start(); t.join()
    sys.stdout.flush(); os._exit(r[0])
