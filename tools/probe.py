"""Runs a list of cases of a check each in a fresh process and tabulates which fail (development aid).
usage: probe.py C04 < cases.jsonl"""
import os, sys, json, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V + '/checks', V + '/build/site']
os.environ['MC_BUILT'] = '1'
if sys.executable != '/opt/vp/venv/bin/python':
    os.execv('/opt/vp/venv/bin/python', ['/opt/vp/venv/bin/python'] + sys.argv)
import mc
r = mc.Run(sys.argv[1], 'quick')
cases = [json.loads(l) for l in sys.stdin if l.strip()]
def go(c):
    return c, r.fresh(c, 60)
with cf.ThreadPoolExecutor(8) as ex:
    for c, al in ex.map(go, cases):
        for a in al:
            w = a[1].strip().splitlines()
            print(json.dumps(c), '\n      ', a[0][:180].replace('\n', ' '), '\n         ', (w[-1] if 'Trace' in w[0] else a[1])[:int(os.environ.get('W', 300))].replace('\n', ' '))
        if not al and os.environ.get('OK'): print(json.dumps(c), 'ok')
