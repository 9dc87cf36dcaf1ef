"""C14: the registry of cells against a model."""
import gdspy

import gen

RULE = (
    "Random sequences of registry operations (with cells, names, lists and generators as arguments and all flags) run on a library and on "
    "a model that holds a map of names and a list of targets for every cell. After every step the cells, the target of every reference, "
    "the top level cells and the returned counts are compared; refused operations must leave everything as it was. Non-trivial: the "
    "operation changed the model or was refused; distinct by operation, flags and kind of change."
)
ASSUMPTIONS = [
    "Histories that would make a cell refer to itself are not run.",
    "A cell referred to by name only (string) may or may not count as top level.",
]
REQUIRED = ["cells", "targets", "top-level", "refused", "removed-count", "replaced-count"]


def cases(tier):
    k = 4 if tier == "quick" else 120
    return [("history", 220 * k), ("extract", 40 * k), ("global", 30 * k)]


class Model(object):
    def __init__(self):
        self.lib = {}  # name -> cell
        self.name = {}  # cell -> name
        self.refs = {}  # cell -> [target cell or string]

    def copy(self):
        m = Model()
        m.lib, m.name = dict(self.lib), dict(self.name)
        m.refs = {c: list(r) for c, r in self.refs.items()}
        return m

    def tname(self, t):
        return t if isinstance(t, str) else self.name[t]

    def below(self, c, seen=None):
        seen = set() if seen is None else seen
        for t in self.refs[c]:
            if not isinstance(t, str) and t not in seen:
                seen.add(t)
                self.below(t, seen)
        return seen

    def cyclic(self):
        return any(c in self.below(c) for c in self.refs)

    def replace(self, old, new):
        n = 0
        for c in self.lib.values():
            for i, t in enumerate(self.refs[c]):
                if self.tname(t) == old:
                    self.refs[c][i] = new
                    n += 1
        return n

    def add(self, cells, deps, overwrite, update):
        """None if refused, 'ambiguous' if not defined."""
        extra = set()
        if deps:
            for c in cells:
                extra |= self.below(c)
            extra -= set(cells)
        names = {}
        for c in list(extra) + list(cells):
            names.setdefault(self.name[c], set()).add(c)
        if not overwrite:
            for n, s in names.items():
                if len(s) > 1 or (n in self.lib and self.lib[n] not in s):
                    return None
        replaced = []
        for n, s in names.items():
            explicit = [c for c in cells if c in s]
            if len(s) > 1 and not explicit:
                return "ambiguous"
            win = explicit[-1] if explicit else list(s)[0]
            if len(s) > 1 or self.lib.get(n, win) is not win:
                replaced.append(n)
            self.lib[n] = win
        if update:
            for n in replaced:
                self.replace(n, self.lib[n])
        return "changed" if replaced else "added"

    def remove(self, name, references):
        self.lib.pop(name, None)
        n = 0
        if references:
            for c in self.lib.values():
                k = [t for t in self.refs[c] if self.tname(t) != name]
                n += len(self.refs[c]) - len(k)
                self.refs[c] = k
        return n


NAMES = ["A", "B", "C", "D", "E", "a", "A1", "$x"]


class History(object):
    def __init__(self, rng, m):
        self.rng, self.m = rng, m
        self.lib = gdspy.GdsLibrary("L")
        self.model = Model()
        self.trace = []

    def make(self, name=None):
        c = gdspy.Cell(name or self.rng.choice(NAMES), exclude_from_current=True)
        self.model.name[c] = c.name
        self.model.refs[c] = []
        for _ in range(self.rng.choice([0, 0, 1, 2, 3])):
            self.refer(c)
        return c

    def refer(self, c, known=None):
        r = self.rng
        pool = [x for x in self.model.refs if x is not c]
        if r.random() < 0.15 or not pool:
            t = r.choice(NAMES)
        else:
            inlib = [x for x in pool if x in self.model.lib.values()]
            t = r.choice(inlib) if inlib and r.random() < 0.7 else r.choice(pool)
        n = self.model.copy()
        n.refs[c].append(t)
        if n.cyclic():
            return
        if r.random() < 0.6:
            e = gdspy.CellReference(t, (r.random(), 0), ignore_missing=True)
        else:
            e = gdspy.CellArray(t, 2, 2, (1, 1), ignore_missing=True)
        c.add(e)
        self.model = n

    def check(self, what, key):
        m, lib, mod = self.m, self.lib, self.model
        kw = dict(trace=self.trace[-12:])
        ok = m.check(set(lib.cells) == set(mod.lib) and all(lib.cells[n] is mod.lib[n] for n in mod.lib), "cells",
                     "after %s: library has %s, expected %s" % (what, sorted(lib.cells), sorted(mod.lib)), **kw)
        m.check(all(c.name == mod.name[c] for c in mod.refs) and all(n == c.name for n, c in lib.cells.items()), "names", "names after %s" % what, **kw)
        got = list(lib)
        m.check(len(got) == len(mod.lib) and set(got) == set(mod.lib.values()), "iteration", "cells iterated after %s" % what, **kw)
        for c in mod.refs:
            t = [e.ref_cell for e in c.references]
            good = len(t) == len(mod.refs[c]) and all(a is b or (isinstance(a, str) and a == b) for a, b in zip(t, mod.refs[c]))
            if not m.check(good, "targets", "after %s: references of %r (%s the library): %s, expected %s" % (
                    what, c.name, "in" if c in mod.lib.values() else "not in", [getattr(x, "name", x) for x in t], [mod.tname(x) for x in mod.refs[c]]), **kw):
                break
        top = lib.top_level()
        used = {t for c in mod.lib.values() for t in mod.refs[c]}
        sure = {c for c in mod.lib.values() if c not in used and c.name not in used}
        may = {c for c in mod.lib.values() if c not in used}
        m.check(len(top) == len(set(top)) and sure <= set(top) <= may, "top-level", "top_level() after %s: %s, expected %s" % (
            what, sorted(x.name for x in top), sorted(x.name for x in sure)), **kw)
        m.state(*key)
        return ok

    def run(self, op):
        """op: (label, model function, call, key)."""

    def step(self):
        r, m, lib = self.rng, self.m, self.lib
        k = r.choice(["new", "add", "add", "add", "add", "remove", "remove", "rename", "rename", "replace", "replace", "refer"])
        mod = self.model.copy()
        known = set(map(id, self.model.lib.values()))
        inlib = [c for c in self.model.refs if id(c) in known]  # (in an order that does not depend on addresses)
        if k == "refer":
            if inlib:
                self.refer(r.choice(inlib))
                self.check("a new reference", (k,))
            return
        if k == "new":
            name = r.choice(NAMES)
            ow, up = r.random() < 0.5, r.random() < 0.7
            what = "new_cell(%r, %s, %s)" % (name, ow, up)
            old = mod.lib.get(name)
            self.trace.append(what)
            if old is not None and not ow:
                return self.refused(what, lambda: lib.new_cell(name, ow, up), (k, "refused"))
            c = lib.new_cell(name, ow, up) if r.random() < 0.5 else lib.new_cell(name, overwrite_duplicate=ow, update_references=up)
            m.check(isinstance(c, gdspy.Cell) and c.name == name, "new-cell", what)
            mod.name[c], mod.refs[c] = name, []
            mod.add([c], False, ow, up)
            self.model = mod
            return self.check(what, (k, old is not None, up))
        if k == "add":
            cells = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                z = r.random()
                if z < 0.75 or not self.model.refs:
                    c = self.make()
                else:
                    c = r.choice(list(self.model.refs))
                if c not in cells:
                    cells.append(c)
            mod = self.model.copy()
            deps, ow, up = r.random() < 0.6, r.random() < 0.5, r.random() < 0.75
            res = mod.add(cells, deps, ow, up)
            if res == "ambiguous" or (res and (mod.cyclic() or len({c.name for c in cells}) < len(cells))):
                return
            form = "cell" if len(cells) == 1 and r.random() < 0.6 else r.choice(["list", "tuple", "generator"])
            arg = dict(cell=lambda: cells[0], list=lambda: list(cells), tuple=lambda: tuple(cells), generator=lambda: (c for c in cells))[form]()
            what = "add(%s %s, include_dependencies=%s, overwrite_duplicate=%s, update_references=%s)" % (form, [c.name for c in cells], deps, ow, up)
            self.trace.append(what)
            if res is None:
                return self.refused(what, lambda: lib.add(arg, deps, ow, up), (k, "refused", deps, form, len(cells)))
            out = lib.add(arg, deps, ow, up)
            m.check(out is lib, "add-returns", what)
            self.model = mod
            return self.check(what, (k, res, deps, ow, up, form, len(cells)))
        if k == "remove":
            if not inlib and r.random() < 0.8:
                return
            name = r.choice(inlib).name if inlib and r.random() < 0.85 else r.choice(NAMES)
            rr = r.random() < 0.7
            arg = mod.lib[name] if name in mod.lib and r.random() < 0.5 else name
            want = mod.remove(name, rr)
            what = "remove(%s %r, %s)" % ("cell" if arg is not name else "name", name, rr)
            self.trace.append(what)
            got = lib.remove(arg, rr) if r.random() < 0.7 or not rr else lib.remove(arg)
            m.check(got == want, "removed-count", "%s returned %r, expected %r" % (what, got, want), trace=self.trace[-12:])
            self.model = mod
            return self.check(what, (k, rr, want > 0, type(arg).__name__))
        if k == "rename":
            up = r.random() < 0.7
            c = r.choice(inlib) if inlib and r.random() < 0.9 else None
            old = c.name if c else r.choice(NAMES)
            new = r.choice(NAMES + ["N%d" % r.randrange(50)])
            arg = c if c and r.random() < 0.6 else old
            what = "rename_cell(%s %r, %r, %s)" % ("cell" if arg is c else "name", old, new, up)
            self.trace.append(what)
            if (old not in mod.lib) or new in mod.lib:
                return self.refused(what, lambda: lib.rename_cell(arg, new, up), (k, "refused", new in mod.lib))
            c = mod.lib.pop(old)
            mod.lib[new] = c
            mod.name[c] = new
            if up:
                mod.replace(old, c)
            if mod.cyclic():
                return
            got = lib.rename_cell(arg, new, up)
            m.check(isinstance(got, int) and (up or got == 0), "rename-count", "%s returned %r" % (what, got))
            self.model = mod
            return self.check(what, (k, up, type(arg).__name__, got > 0))
        # replace
        known = sorted({mod.tname(t) for c in inlib for t in mod.refs[c]})
        old = r.choice(known) if known and r.random() < 0.85 else r.choice(NAMES)
        z = r.random()
        if z < 0.5 and inlib:
            new = r.choice(inlib)
            narg = new if r.random() < 0.5 else new.name
        elif z < 0.75:
            narg = new = "S%d" % r.randrange(5)
        else:
            narg = new = self.make()
            mod = self.model.copy()
        cand = [c for c in mod.refs if mod.name[c] == old]
        oarg = r.choice(cand) if cand and r.random() < 0.5 else old
        want = mod.replace(old, new)
        if mod.cyclic():
            return
        what = "replace_references(%r, %r)" % (getattr(oarg, "name", oarg), getattr(narg, "name", narg))
        self.trace.append(what)
        got = lib.replace_references(oarg, narg)
        m.check(got == want, "replaced-count", "%s returned %r, expected %r" % (what, got, want), trace=self.trace[-12:])
        self.model = mod
        return self.check(what, (k, want > 0, type(oarg).__name__, type(narg).__name__, isinstance(new, str)))

    def refused(self, what, call, key):
        try:
            call()
            self.m.check(False, "refused", "%s should be refused" % what, trace=self.trace[-12:])
        except ValueError:
            self.m.seen("refused")
        # a refused new_cell may have made a cell nobody sees
        self.check("refused " + what, key)


def run_case(kind, index, rng, m):
    h = History(rng, m)
    if kind == "history":
        for _ in range(rng.choice([6, 15, 40])):
            h.step()
            if m.violations:
                return
        m.count("operations", len(h.trace))
        m.sample(h.trace)
        return
    if kind == "global":
        return run_global(h, rng, m)
    # extract: into the (deprecated) current library
    for _ in range(rng.choice([3, 6])):
        h.make()
    cells = list(h.model.refs)
    byname = {}
    for c in cells:
        byname[c.name] = c
    src = gdspy.GdsLibrary("S")
    src.cells.update(byname)
    saved = gdspy.current_library
    try:
        gdspy.current_library = h.lib
        for c in rng.sample(cells, min(len(cells), 2)):
            mod = h.model.copy()
            res = mod.add([c], True, False, True)
            if res == "ambiguous":
                return
            real = byname[c.name]
            if real is not c:
                continue
            arg = c if rng.random() < 0.5 else c.name
            h.trace.append("extract(%r)" % c.name)
            if res is None:
                h.refused("extract", lambda: src.extract(arg), ("extract", "refused"))
            else:
                out = src.extract(arg)
                m.check(out is c, "extract-returns", "extract returned %r" % (out,))
                h.model = mod
                h.check("extract", ("extract", len(mod.below(c)) > 0))
    finally:
        gdspy.current_library = saved


def run_global(h, rng, m):
    """New cells go to the (deprecated) current library, unless told otherwise."""
    import datetime
    import io
    import warnings

    saved = gdspy.current_library, gdspy.library.use_current_library
    try:
        gdspy.current_library = h.lib
        gdspy.library.use_current_library = True
        for _ in range(rng.choice([4, 8, 15])):
            name = rng.choice(NAMES)
            k = rng.choice(["cell", "cell", "cell", "excluded", "off", "new_cell", "copy", "read"])
            h.trace.append((k, name))
            mod = h.model.copy()
            if k == "cell":
                if name in mod.lib:
                    h.refused("Cell(%r)" % name, lambda: gdspy.Cell(name), (k, "refused"))
                else:
                    c = gdspy.Cell(name) if rng.random() < 0.5 else gdspy.Cell(name, exclude_from_current=False)
                    mod.name[c], mod.refs[c], mod.lib[name] = name, [], c
                    h.model = mod
                    h.check("Cell(%r)" % name, (k,))
                    h.refer(c)
            elif k == "excluded":
                c = gdspy.Cell(name, True) if rng.random() < 0.5 else gdspy.Cell(name, exclude_from_current=True)
                h.check("Cell(%r) excluded" % name, (k, name in mod.lib))
            elif k == "off":
                gdspy.library.use_current_library = False
                c = gdspy.Cell(name)
                gdspy.library.use_current_library = True
                h.check("Cell(%r) with the global library off" % name, (k, name in mod.lib))
            elif k == "new_cell":
                # the same as Cell(name) and adding it
                other = gdspy.GdsLibrary("other")
                if name in mod.lib:
                    h.refused("new_cell(%r) of another library" % name, lambda: other.new_cell(name), (k, "refused"))
                    m.check(not other.cells, "cells", "cells of a library after a refused new_cell")
                    continue
                c = other.new_cell(name)
                m.check(list(other.cells.items()) == [(name, c)], "cells", "new_cell of another library")
                mod.name[c], mod.refs[c], mod.lib[name] = name, [], c
                h.model = mod
                h.check("new_cell(%r) of another library" % name, (k,))
            elif k == "copy":
                if not mod.lib:
                    continue
                src = rng.choice(list(mod.lib.values()))
                deep = rng.random() < 0.5
                call = lambda: src.copy(name, deep_copy=deep)
                if name in mod.lib:
                    h.refused("copy to %r" % name, call, (k, "refused"))
                    continue
                c = call()
                m.check(c.name == name, "names", "copy named %r" % c.name)
                mod.name[c], mod.refs[c] = name, list(mod.refs[src])
                mod.lib[name] = c
                if mod.cyclic():
                    return
                h.model = mod
                h.check("copy(%r)" % name, (k, deep))
            else:
                other = gdspy.GdsLibrary("other")
                for c in mod.lib.values():
                    other.add(c, include_dependencies=False)
                f = io.BytesIO()
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    other.write_gds(f)
                    back = gdspy.GdsLibrary(infile=io.BytesIO(f.getvalue()))
                m.check(set(back.cells) == set(mod.lib), "cells", "cells read %s" % sorted(back.cells))
                h.check("reading a file", (k, len(mod.lib)))
            if m.violations:
                return
        # the module function writes this library
        t = datetime.datetime(2020, 1, 2, 3, 4, 5)
        a, b = io.BytesIO(), io.BytesIO()
        unit, prec, name = rng.choice([(1e-6, 1e-9), (1e-3, 1e-8)]) + (rng.choice(["library", "GLOBAL", "x"]),)
        for c in h.model.lib.values():
            c.add(gdspy.Rectangle((0, 0), (rng.random(), rng.random())))
        cells = None if rng.random() < 0.5 or not h.lib.cells else rng.sample(list(h.lib.cells.values()), 1)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            gdspy.write_gds(a, cells=cells, name=name, unit=unit, precision=prec, timestamp=t)
            ref = gdspy.GdsLibrary(name, unit=unit, precision=prec)
            for c in h.lib.cells.values():
                ref.add(c, include_dependencies=False)
            ref.write_gds(b, cells=cells, timestamp=t)
        m.check(a.getvalue() == b.getvalue(), "written", "gdspy.write_gds writes %d bytes, a library with the same cells %d" % (len(a.getvalue()), len(b.getvalue())))
        m.state("written", unit, cells is None, len(h.lib.cells))
    finally:
        gdspy.current_library, gdspy.library.use_current_library = saved
