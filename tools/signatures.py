"""Rewrites run/signatures.json: the loops, names and mutable names of the functions that carry
annotations, as the committed contracts were written for. Run on the unchanged tree only."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/run')
import check
with tempfile.TemporaryDirectory() as s:
    ex, src = check.extractor(s), check.expand(s)
    out = {}
    for mode in ('decode', 'text', 'values'):
        con, rep = s + '/c.json', s + '/r.json'
        subprocess.check_call([sys.executable, V + '/spec/gen.py', con, mode])
        subprocess.check_call([ex, src, con, s + '/o.rs', rep])
        fns = json.load(open(con))['fns']
        for k, f in json.load(open(rep))['functions'].items():
            c = fns.get(k) or {}
            if f.get('loops') or f.get('contract') and c:
                out.setdefault(k, {'binders': f['binders'], 'muts': f['muts'], 'loops': f.get('loops', 0)})
    json.dump(out, open(V + '/run/signatures.json', 'w'), indent=1, sort_keys=True)
    open(V + '/run/signatures.json', 'a').write('\n')
