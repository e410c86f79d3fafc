"""Function-level reachability over relocatable objects compiled with
-ffunction-sections -fdata-sections: what can run when `entry` is called.
Used only to drop unreachable bodies before symbolic execution (cost, not
soundness: a body dropped by a `cut` becomes assert(false))."""
import re, subprocess


class Obj:
    __slots__ = ('path', 'defs', 'secs', 'relocs', 'undef', 'symsec')

    def __init__(self, path):
        self.path = path
        out = subprocess.run(['readelf', '-W', '-S', '-s', '-r', path], stdout=subprocess.PIPE, text=True, errors='replace').stdout
        self.secs, self.defs, self.relocs, self.undef = {}, {}, {}, set()
        self.symsec = {}
        cur = None
        for line in out.split('\n'):
            m = re.match(r'\s*\[\s*(\d+)\]\s+(\S+)\s+(\S+)\s', line)
            if m:
                self.secs[m.group(1)] = m.group(2)
                continue
            m = re.match(r"Relocation section '\.rela(\S+)'", line)
            if m:
                cur = m.group(1)
                self.relocs.setdefault(cur, set())
                continue
            m = re.match(r'\s*\d+:\s+[0-9a-f]+\s+\S+\s+(\w+)\s+(\w+)\s+\w+\s+(\S+)(?:\s+(\S+))?', line)
            if m:
                typ, bind, ndx, name = m.groups()
                if ndx == 'UND':
                    if name:
                        self.undef.add(name)
                elif ndx.isdigit():
                    if typ == 'SECTION':
                        continue
                    if name:
                        self.defs[name] = (ndx, typ, bind)
                elif ndx == 'COM' and name:
                    self.defs[name] = (None, typ, bind)
                continue
            m = re.match(r'[0-9a-f]{12,16}\s+[0-9a-f]+\s+R_\S+\s+[0-9a-f]+\s+(\S+)', line)
            if m and cur is not None:
                self.relocs[cur].add(m.group(1))
        # map every local/global symbol to its section name
        self.symsec = {n: self.secs.get(d[0]) for n, d in self.defs.items() if d[0]}
        self.defs = {n: d for n, d in self.defs.items()}


class Graph:
    def __init__(self, paths):
        self.objs = [Obj(p) for p in paths]
        self.glob = {}
        for i, o in enumerate(self.objs):
            for n, (ndx, typ, bind) in o.defs.items():
                if bind in ('GLOBAL', 'WEAK'):
                    self.glob.setdefault(n, i)

    def functions(self):
        r = set()
        for o in self.objs:
            for n, (ndx, typ, bind) in o.defs.items():
                if typ == 'FUNC':
                    r.add(n)
        return r

    def externals(self):
        u = set()
        for o in self.objs:
            u |= o.undef
        return {n for n in u if n not in self.glob}

    def reach(self, harness_obj, entry, cut=lambda n: False, replace=()):
        objs = self.objs + [harness_obj]
        glob = dict(self.glob)
        hi = len(objs) - 1
        for n, (ndx, typ, bind) in harness_obj.defs.items():
            if bind in ('GLOBAL', 'WEAK'):
                glob[n] = hi
        names, files = {}, set()
        seen, todo = set(), []
        cuts = set()

        def push(i, sym):
            o = objs[i]
            if sym.startswith('.') and sym not in o.symsec:
                node = (i, sym)
            elif sym in o.symsec and not (sym in replace and i != hi):
                if i != hi and o.defs[sym][1] == 'FUNC' and cut(sym):
                    cuts.add(sym)
                    return
                node = (i, o.symsec[sym])
            elif sym in glob:
                j = glob[sym]
                if j == i or (sym in replace and j != hi):
                    return
                return push(j, sym)
            else:
                return
            if node not in seen:
                seen.add(node)
                todo.append(node)
        for e in ([entry] if isinstance(entry, str) else entry):
            push(hi, e)
        while todo:
            i, sec = todo.pop()
            for s in objs[i].relocs.get(sec, ()):
                push(i, s)
        for i, o in enumerate(objs):
            secs = {s for (j, s) in seen if j == i}
            if not secs:
                continue
            files.add(i)
            names.setdefault(i, set())
            for n, s in o.symsec.items():
                if s in secs:
                    names.setdefault(i, set()).add(n)
        return names, {objs[i].path for i in files if i != hi}, cuts
