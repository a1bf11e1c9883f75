"""Rewrite spec/vocab.json: names whose meaning the reference models fix."""
import os, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.setrecursionlimit(200000); threading.stack_size(1<<29)
def main():
    from sa.loader import World
    from sa.engine_check import decide, names_of
    import config
    w=World({'elementstx':'/repo','spec':V})
    helpers = {o.spec.replace(':', '.'): o.q for g in config.OBS.values() for o in g if '.' not in o.impl.split(':')[1]}
    by={}
    for g,obs in config.OBS.items():
        for o in obs:
            r=decide(w,o,helpers)
            ss=getattr(r,'ss',None)
            if ss is None: continue
            s=set(); seen=set()
            for v in list(ss.obs.values())+list(ss.byclass.values()): names_of(v,s,seen)
            for n in s: by.setdefault(n,set()).add(o.spec.split(':')[1])
    import json
    bad={'call:?','call:builtins.getattr','call:builtins.next','call:builtins.issubclass','method:__init__','method:split','unknown:undef','method:_from_instance','method:from_bytes','method:to_int'}
    for m in ('is_null','is_explicit','is_commitment','is_valid','is_fee','is_fullyvalid','is_nonempty','is_mutable','is_immutable','is_unspendable','is_pegout','to_asset','to_amount','GetHash','GetTxid','to_hex','ECDH','is_coinbase'): by['method:'+m]=1
    for l in open(V + '/spec/ffi_table.py'):
        import re
        for f in re.findall(r'secp256k1_[a-z0-9_]+',l): by['ffi:'+f]=1
    names=[n for n in sorted(by) if n not in bad and not n.startswith(('attr:','op:'))]
    from sa.libmodel import repo_methods
    class It: pass
    i = It(); i.w = w
    json.dump({'names':names, 'methods': sorted(repo_methods(i))},open(V + '/spec/vocab.json','w'),indent=1)
t=threading.Thread(target=main); t.start(); t.join()
