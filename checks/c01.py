from sa.names import World
EXPLAIN = ('Type-directed name, attribute and signature resolution over every module and function of the package: imports against the package and the installed library sources/stubs, '
           'globals through symbol tables, attributes against class hierarchies (types inferred from constructors, annotations and assignments), calls against the signatures of all possible callees, '
           'locals by forward may-assignment, and attribute initialisation order by interprocedural walk of every concrete constructor. Module bodies are also abstractly executed in import order.')
ASSUME = ['values whose type cannot be inferred have the attributes used on them when some class or library defines such a name', 'optional libraries that are not installed export what is imported from them']
FLOOR = 3000


def run(rep):
    w = World()
    out = w.run()
    seen = set()
    for rule, construct, msg, where in out:
        if (rule, construct) in seen:
            continue
        seen.add((rule, construct))
        rep.bad(rule, construct, msg, where)
    for rule, n in sorted(w.counts.items()):
        for i in range(max(0, n - sum(1 for r, c in seen if r == rule))):
            rep.obs.append((rule, 'resolved reference %d' % i, 'ok', '', ''))

    def boot():
        from sa.drive import load
        ip = load()
        for m, line, e in ip.module_errors:
            rep.bad('module bodies run', str(m), 'importing the module raises %s' % (e,), '%s:%s' % (m, line))
        rep.ok('module bodies run', '%d modules' % len(w.prog.mods))
    rep.guard('module bodies run', 'package', boot)
    rep.stats = dict(modules=len(w.prog.mods), classes=len(w.classes), functions=sum(1 for _ in w.functions()), references_by_rule=w.counts)
