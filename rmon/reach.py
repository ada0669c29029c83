"""Which lines and branches of the code under test the observed executions went through (sys.monitoring, evidence only)"""
import os, sys, types

TOOL = 4


def code_objects(src):
    """all code objects of functions of the loaded modules of the package, by file"""
    seen, todo = set(), []
    for mod in list(sys.modules.values()):
        f = getattr(mod, '__file__', None)
        if f and os.path.realpath(f).startswith(src):
            for v in list(vars(mod).values()):
                todo.append(v)
    out = []
    while todo:
        v = todo.pop()
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            todo += [v.fget, v.fset]
            continue
        if isinstance(v, type):
            if id(v) not in seen and getattr(sys.modules.get(v.__module__), '__file__', None):
                seen.add(id(v))
                todo += list(vars(v).values())
            continue
        if isinstance(v, types.FunctionType):
            v = v.__code__
        if isinstance(v, types.CodeType) and id(v) not in seen and os.path.realpath(v.co_filename).startswith(src):
            seen.add(id(v))
            out.append(v)
            todo += [c for c in v.co_consts if isinstance(c, types.CodeType)]
    return out


class Reach(object):
    def __init__(self, src):
        self.src = src
        self.lines, self.branches = set(), {}
        self.on = False
        self.codes = []

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        try:
            mon.use_tool_id(TOOL, 'rmon')
        except ValueError:
            return
        E = mon.events

        def line(code, n):
            self.lines.add((os.path.basename(code.co_filename), n))
            return mon.DISABLE

        def branch(code, at, to):
            s = self.branches.setdefault((os.path.basename(code.co_filename), code.co_qualname, at), set())
            s.add(to)
            return mon.DISABLE if len(s) > 1 else None
        mon.register_callback(TOOL, E.LINE, line)
        mon.register_callback(TOOL, E.BRANCH, branch)
        self.on = True
        self.refresh()

    def refresh(self):
        """modules may be loaded later"""
        if not self.on:
            return
        mon = sys.monitoring
        have = {id(c) for c in self.codes}
        for c in code_objects(self.src):
            if id(c) not in have:
                self.codes.append(c)
                mon.set_local_events(TOOL, c, mon.events.LINE | mon.events.BRANCH)

    def dump(self):
        total = {}
        for c in self.codes:
            f = os.path.basename(c.co_filename)
            for _, _, n in c.co_lines():
                if n and n != c.co_firstlineno:
                    total.setdefault(f, set()).add(n)
        named = {}
        by_name = {(os.path.basename(c.co_filename), c.co_qualname): c for c in self.codes}
        for (f, q, at), v in self.branches.items():
            line = next((n for a, b, n in by_name[f, q].co_lines() if a <= at < b), None) if (f, q) in by_name else None
            named[f, q, line, at] = v
        return {'lines': self.lines, 'branches': named, 'total': total}


def merge(a, d):
    a.setdefault('lines', set()).update(d['lines'])
    for k, v in d['branches'].items():
        a.setdefault('branches', {}).setdefault(k, set()).update(v)
    for k, v in d['total'].items():
        a.setdefault('total', {}).setdefault(k, set()).update(v)


def summary(a):
    out = {}
    for f in sorted({f for f, _ in a.get('lines', ())}):
        n = {x for g, x in a['lines'] if g == f}
        b = [v for k, v in a.get('branches', {}).items() if k[0] == f]
        out[f] = {'lines': len(n & a.get('total', {}).get(f, n)), 'of': len(a.get('total', {}).get(f, n)), 'branches reached': len(b),
                  'taken both ways': sum(len(v) > 1 for v in b)}
    return out
