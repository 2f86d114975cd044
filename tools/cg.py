"""Call graph over the monomorphised MIR dump."""
import json


def rvalue_types(x, out):
    """Every closure/fndef type mentioned by constants and aggregates of a statement."""
    if isinstance(x, list):
        for y in x:
            rvalue_types(y, out)
    elif isinstance(x, dict):
        if 'ty' in x and isinstance(x['ty'], int):
            out.add(x['ty'])
        for y in x.values():
            if isinstance(y, (list, dict)):
                rvalue_types(y, out)


class CG:
    def __init__(self, P):
        self.P = P
        self.cache = {}

    def type_fns(self, ty, seen=None):
        """Functions reachable through a closure / fn item type handed to unknown code."""
        seen = seen if seen is not None else set()
        if ty in seen:
            return set()
        seen.add(ty)
        t = self.P.types[ty]
        out = set()
        if t['k'] == 'fndef' and t.get('fn') is not None:
            out.add(t['fn'])
        if t['k'] == 'closure':
            out |= {v for v in t['inst'].values() if v is not None}
            if t.get('up') is not None:
                out |= self.type_fns(t['up'], seen)
        if t['k'] == 'tuple':
            for x in t['a']:
                out |= self.type_fns(x, seen)
        if t['k'] == 'adt':
            for x in t['args']:
                if isinstance(x, int):
                    out |= self.type_fns(x, seen)
        if t['k'] in ('ref', 'ptr', 'slice', 'array'):
            out |= self.type_fns(t['e'], seen)
        return out

    def callees(self, fid):
        r = self.cache.get(fid)
        if r is not None:
            return r
        f = self.P.fns[fid]
        out = []
        if f['body'] is None:
            s = set()
            for x in f['args']:
                if isinstance(x, int):
                    s |= self.type_fns(x)
            out = [(x, None) for x in sorted(s)]
        else:
            for b in f['body']['blocks']:
                t = b['t']
                if t['k'] == 'call':
                    fo = t['f']
                    tys = set()
                    if fo[0] == 'k' and 'fn' in fo[1]:
                        out.append((fo[1]['fn'], t.get('l')))
                    for o in t['a']:
                        if o[0] == 'k':
                            rvalue_types(o[1], tys)
                    for ty in tys:
                        for x in self.type_fns(ty):
                            out.append((x, t.get('l')))
                elif t['k'] == 'drop' and t.get('d') is not None:
                    out.append((t['d'], t.get('l')))
                tys = set()
                rvalue_types(b['s'], tys)
                for ty in tys:
                    if self.P.types[ty]['k'] in ('fndef', 'closure'):
                        for x in self.type_fns(ty):
                            out.append((x, None))
        self.cache[fid] = out
        return out

    def reach(self, roots, stop=lambda f: False):
        """{fid: (parent fid, line)} of everything reachable."""
        par = {r: None for r in roots}
        work = list(roots)
        while work:
            x = work.pop()
            if stop(self.P.fns[x]):
                continue
            for y, l in self.callees(x):
                if y not in par:
                    par[y] = (x, l)
                    work.append(y)
        return par

    def chain(self, par, fid, only='cniic'):
        out = []
        while fid is not None:
            f = self.P.fns[fid]
            if f['crate'] == only or not out:
                out.append(f['path'])
            p = par[fid]
            fid = p[0] if p else None
        return ' <- '.join(out[:8])
