"""What each check is made of."""

BASE = ['prelude.rs', 'git_types.rs']
EV = BASE + ['eventlog_types.rs']
UNITS = {
    'ew': EV + ['eventlog_rows.rs'],
    'el': EV + ['eventlog_special.rs', 'eventlog_replay.rs'],
    'ec': EV + ['eventlog_cursor.rs'],
    'eq': EV + ['eventlog_query.rs'],
    'er': EV + ['eventlog_refs.rs'],
    'hk': EV + ['eventlog_special.rs', 'hook.rs'],
    'gc': EV + ['eventlog_special.rs', 'eventlog_cursor.rs', 'eventlog_query.rs', 'gc.rs'],
    'hd': EV + ['cset.rs', 'cmd.rs', 'hide.rs'],
    'dg': EV + ['eventlog_query.rs', 'eventlog_refs.rs', 'cset.rs', 'dag.rs'],
    'ev': EV + ['eventlog_query.rs', 'eventlog_refs.rs', 'cset.rs', 'dag.rs', 'evolve.rs'],
    'pl': EV + ['eventlog_query.rs', 'eventlog_refs.rs', 'cset.rs', 'dag.rs', 'plan.rs'],
    'ex': EV + ['execute.rs'],
    'rv': EV + ['eventlog_query.rs', 'eventlog_cursor.rs', 'eventlog_refs.rs', 'cset.rs', 'dag.rs', 'evolve.rs', 'revset.rs'],
    'rs': EV + ['eventlog_query.rs', 'eventlog_cursor.rs', 'eventlog_refs.rs', 'cset.rs', 'dag.rs', 'evolve.rs', 'plan.rs', 'restack.rs'],
    'nv': EV + ['eventlog_query.rs', 'eventlog_refs.rs', 'cset.rs', 'dag.rs', 'nav.rs', 'checkout.rs'],
    'un': EV + ['undo.rs'],
    'sn': ['prelude.rs', 'git_types.rs', 'snapshot.rs', 'restore.rs'],
    'in': ['prelude.rs', 'init.rs'],
    'sb': ['prelude.rs', 'bisect.rs'],
}

BUILDS = {
    'bins': dict(cmd=['cargo', 'build', '--workspace', '--all-features', '--bins', '--locked', '--offline'], run=[]),
    'e2e': dict(crate='harness/e2e', run=['@TARGET/debug/vh-e2e'], needs=['bins']),
    'core': dict(crate='harness/core', run=['@TARGET/debug/vh-core']),
}

TRUSTED_BASE = [
    'Verus 0.2026.09.13 and its z3',
    'rustc (the extracted text is compiled by Verus; the executed code by rustc 1.74)',
    'vx: the mechanical extraction of the functions from /repo (drops logging, attributes and error texts; see DESIGN.md)',
]

PROPS = {
    'C01': dict(level='proof', units=['ew'], exec=[('core', 'storage')],
                bounded='SQLite storage and column order: executable contract on a real database file'),
    'C02': dict(level='proof', units=['el', 'eq'], exec=[('core', 'status')]),
    'C03': dict(level='proof', units=['el', 'ec'], exec=[('core', 'cursor')]),
    'C04': dict(level='proof', units=['el', 'er'], exec=[('core', 'refs')]),
    'C05': dict(level='proof', units=['un'], exec=[('e2e', 'undo')], seconds=50,
                bounded='effects of git and of the checkout command: executable contract on real repositories'),
    'C06': dict(level='proof', units=['hk'], exec=[('e2e', 'record')], seconds=50,
                bounded='what Git tells the hooks: executable contract on real repositories'),
    'C07': dict(level='proof', units=['gc', 'hd'], exec=[('e2e', 'gc')], seconds=50,
                bounded='what Git prunes: executable contract on real repositories'),
    'C08': dict(level='proof', units=['hd'], exec=[('e2e', 'hide')], seconds=50,
                bounded='effects of git on references: executable contract on real repositories'),
    'C09': dict(level='proof', units=['dg'], exec=[('e2e', 'dag')], seconds=50,
                bounded='the segmented-graph library: executable contract on real repositories'),
    'C10': dict(level='proof', units=['ev'], exec=[('core', 'rewrite'), ('e2e', 'abandoned')],
                bounded='the segmented-graph library: executable contract on real repositories'),
    'C11': dict(level='proof', units=['pl'], exec=[('e2e', 'refuse')], seconds=50,
                bounded='that a refused command changes nothing: executable contract on real repositories'),
    'C12': dict(level='proof', units=['pl', 'ex'], exec=[('e2e', 'move')], seconds=70,
                bounded='merging trees, what git and its rebase do, the order of the plan\'s commands: executable contract on real repositories'),
    'C13': dict(level='proof', units=['pl', 'ex'], exec=[('e2e', 'reword'), ('e2e', 'amend'), ('e2e', 'commit')], seconds=80,
                bounded='the commands, merging trees, what git does: executable contract on real repositories'),
    'C14': dict(level='proof', units=['ev', 'pl', 'ex', 'rs'], exec=[('e2e', 'restack'), ('e2e', 'sync')], seconds=80,
                bounded='the commands, merging trees, what git does: executable contract on real repositories'),
    'C15': dict(level='proof', units=['sb'], exec=[('core', 'bisect')], seconds=10,
                bounded='executable contract on random graphs'),
    'C16': dict(level='proof', units=['sb'], exec=[('e2e', 'test')], seconds=70,
                bounded='running the commands, the cache and applying fixes: executable contract on real repositories'),
    'C17': dict(level='proof', units=['rv'], exec=[('e2e', 'revset')], seconds=50,
                bounded='parsing, the table of functions, aliases, branches, globs and regular expressions: executable contract on real repositories'),
    'C18': dict(level='proof', units=['nv'], exec=[('e2e', 'nav')], seconds=50,
                bounded='the commands and checking out: executable contract on real repositories'),
    'C19': dict(level='proof', units=['in'], exec=[('e2e', 'setup')], seconds=50,
                bounded='settings, the place of hooks and running them: executable contract on real repositories'),
    'C20': dict(level='proof', units=['sn'], exec=[('e2e', 'snapshot')], seconds=70,
                bounded='git status, reset, checkout and update-index: executable contract on real repositories'),
}
