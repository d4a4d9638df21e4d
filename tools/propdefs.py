HOOKS = {'guard': 'none', 'enable': 'no hooks: the checks use the public API and the extracted source', 'source_commits': []}
NOTES = 'Each check extracts the functions under contract from /repo on every run, has Verus discharge their obligations, and runs the same contracts as executable oracles against the compiled code (see DESIGN.md).'
EL = 'git-branchless-lib/src/core/eventlog.rs'
TECH = 'Verus contracts on functions extracted from /repo on every run; the same contracts executed against the compiled code to find failing inputs'
def m(name, where): return {'name': name, 'where': where}
DEFS = [
 dict(id='C01', title='The event log gives back exactly what was recorded',
  statement='Every event recorded in the event log is read back later, by any process, with every field unchanged and in the order recorded, and nothing else is read back. Events belonging to a suppressed transaction are never stored. Each new event transaction gets an id never handed out before and keeps its message.',
  quantifier={'over': ['inputs', 'histories'], 'text': 'every sequence of batches of events of every kind, with every combination of zero and non-zero object ids, present and absent names and messages, suppressed or not'},
  why_tests_cant='Unit tests round-trip a few events; the fields that can be absent or zero combine in many ways per event kind and only some combinations occur in the tests.',
  anchors={'files': [EL], 'state': [{'name': 'event_log table', 'meaning': 'one row per event', 'where': EL}],
           'mechanism': [m('TryFrom<Event> for Row', EL), m('try_from_row_helper', EL), m('EventLogDb::add_events / get_events', EL)],
           'observe_at': ['EventLogDb::get_events'], 'hook_needed': None},
  technique=TECH, level_note='Proved for all events: event to row to event is the identity and only suppressed events are skipped. Assumed: object ids print and parse back; SQLite returns rows as inserted (that part is exercised on a real database file, bounded).'),
 dict(id='C02', title='A commit is visible exactly as its last event says, at any point in time',
  statement='At any point of the recorded timeline a commit is active if the last event before that point that concerns it created, restored or produced it, obsolete if that event hid it or rewrote it away, and unknown if there is none. The latest event reported for a commit and the set of commits observed at that point agree with this. Later events never influence the answer for an earlier point, and updates to internal or special references never enter the timeline.',
  quantifier={'over': ['histories', 'inputs'], 'text': 'every recorded event history, every point in it, every commit'},
  why_tests_cant='Tests look at a handful of histories, nearly always at their end; the claim is about every history and every position in it.',
  anchors={'files': [EL], 'state': [{'name': 'commit_history', 'meaning': 'events per commit, in order', 'where': EL}],
           'mechanism': [m('EventReplayer::process_event', EL), m('get_cursor_commit_activity_status', EL), m('get_cursor_commit_latest_event', EL), m('get_cursor_oids', EL)],
           'observe_at': ['smartlog and undo views'], 'hook_needed': None},
  technique=TECH, level_note='Proved for every history, position and commit, with assumed contracts on std collections and iterators (listed in the evidence).'),
 dict(id='C03', title='The timeline is navigated by whole transactions and never left',
  statement='Positions in the timeline are clamped to its two ends. Moving by some number of transactions from any position ends on a boundary between transactions, exactly that many boundaries away or at the end of the timeline if there are fewer. The events reported as the transaction before a position, and as having happened since it, are exactly those of the timeline, in order.',
  quantifier={'over': ['histories', 'inputs'], 'text': 'every recorded history (transactions of any length, interleaved or not), every position, every distance in both directions'},
  why_tests_cant='Tests sample a few positions of short histories; interleaved transactions and out-of-range moves are not covered.',
  anchors={'files': [EL], 'state': [{'name': 'EventCursor', 'meaning': 'position between two events', 'where': EL}],
           'mechanism': [m('make_cursor / advance_cursor', EL), m('advance_cursor_by_transaction', EL), m('get_tx_events_before_cursor', EL), m('get_events_since_cursor', EL)],
           'observe_at': ['git undo'], 'hook_needed': None},
  technique=TECH, level_note='Proved for every history, position and distance including termination; stack depth of the recursive walk is not modelled.'),
 dict(id='C04', title='References are reconstructed exactly for any point in time',
  statement='For any point of the recorded timeline, each local branch is shown at the position of the last update recorded before that point, or not at all if it was deleted or never seen; HEAD is the last commit it was recorded at; the main branch is at its last recorded position, or at its present one if none was recorded. Deletions that Git reported without the old position are given the position the reference had, and a deletion reported twice counts once.',
  quantifier={'over': ['histories', 'inputs'], 'text': 'every recorded event history and every point in it'},
  why_tests_cant='Tests cover a few reference updates and the end of the timeline; the claim ranges over all interleavings of updates, deletions and repeats.',
  anchors={'files': [EL, 'git-branchless-lib/src/core/repo_ext.rs'], 'state': [{'name': 'ref_locations', 'meaning': 'current position of each reference', 'where': EL}],
           'mechanism': [m('get_references_snapshot', EL), m('get_cursor_head_oid', EL), m('get_cursor_branch_oid_to_names', EL), m('fix_event_git_v2_31', EL)],
           'observe_at': ['git undo', 'smartlog of a past state'], 'hook_needed': None},
  technique=TECH, level_note='Proved for every history and position; the classification of a name as local branch and the present position of the main branch are assumed contracts, exercised at run time.'),
 dict(id='C05', title='Undo puts the repository back exactly as it was',
  statement='Undoing to an earlier point of the timeline puts every local branch back where it was at that point (recreating deleted ones, deleting ones created since), checks out the commit HEAD was at, makes visible again every commit hidden or rewritten since and hides every commit created since, and touches nothing else. The inverse of every event since that point is applied once, newest first. If the user declines, nothing changes.',
  quantifier={'over': ['histories', 'inputs'], 'text': 'every history of commits, amends, branch creations, moves and deletions, checkouts, hides, unhides, rewords and moves recorded by the hooks, every point to return to'},
  why_tests_cant='Tests undo single operations or a few; the claim ranges over all event sequences, including several updates of one reference and references both deleted and recreated.',
  anchors={'files': ['git-branchless-undo/src/lib.rs', EL], 'state': [{'name': 'inverse events', 'meaning': 'what is applied', 'where': 'git-branchless-undo/src/lib.rs'}],
           'mechanism': [m('inverse_event', 'git-branchless-undo/src/lib.rs'), m('extract_checkout_target', 'git-branchless-undo/src/lib.rs'), m('undo_events', 'git-branchless-undo/src/lib.rs')],
           'observe_at': ['git undo'], 'hook_needed': None},
  technique=TECH, level_note='Proved for every event sequence: which inverse events are applied, in which order, to references, log and HEAD, and (lemma) that with faithfully recorded positions every reference returns to its earlier position. Assumed: effects of libgit2 reference calls and of the checkout command; exercised end to end on real repositories (bounded).'),
 dict(id='C06', title='Hooks record exactly what Git reports happened',
  statement='For every Git operation in an initialised repository, the event log gains exactly the events that describe it: one reference update per reference of a committed transaction with the old and new positions and targets Git reported (filled in from packed-refs where Git leaves the old position out), a commit event per commit made, and one rewrite event per pair Git lists after a rewrite. Aborted or merely prepared transactions, and updates of internal references, record nothing. Commits named by a commit event are kept from garbage collection.',
  quantifier={'over': ['inputs', 'histories'], 'text': 'every reference transaction, checkout, commit, merge, amend, rebase and cherry-pick; every well-formed hook input'},
  why_tests_cant='Tests run the hooks for a few operations; zero ids, symbolic targets, packed references and multi-line transactions combine in many ways.',
  anchors={'files': ['git-branchless-hook/src/lib.rs', 'git-branchless-lib/src/core/rewrite/rewrite_hooks.rs', EL], 'state': [{'name': 'event log', 'meaning': 'what happened', 'where': EL}],
           'mechanism': [m('hook_reference_transaction', 'git-branchless-hook/src/lib.rs'), m('hook_post_checkout / hook_post_commit_common', 'git-branchless-hook/src/lib.rs'), m('hook_post_rewrite', 'git-branchless-lib/src/core/rewrite/rewrite_hooks.rs')],
           'observe_at': ['event log', 'smartlog', 'git undo'], 'hook_needed': None},
  technique=TECH, level_note='Proved for every hook input: the events handed to the log. Assumed: reading standard input line by line, the packed-refs file parser, string primitives; exercised end to end with real Git (bounded).'),
 dict(id='C07', title='Garbage collection never loses a live commit',
  statement='A commit that is visible stays in the repository through any garbage collection: recording or unhiding a commit creates an internal reference to it, and the branchless collector removes an internal reference exactly when its commit is hidden (or gone). It never touches any other reference, nor internal references to commits no event concerns.',
  quantifier={'over': ['histories', 'inputs'], 'text': 'every history of commits, rewrites, hides, unhides and collections'},
  why_tests_cant='Tests collect in a couple of hand-made states; the claim concerns every order of hiding, unhiding and collecting.',
  anchors={'files': ['git-branchless-lib/src/core/gc.rs', 'git-branchless/src/commands/hide.rs', 'git-branchless-hook/src/lib.rs'], 'state': [{'name': 'refs/branchless/*', 'meaning': 'internal references that keep commits alive', 'where': 'git-branchless-lib/src/core/gc.rs'}],
           'mechanism': [m('find_dangling_references', 'git-branchless-lib/src/core/gc.rs'), m('mark_commit_reachable', 'git-branchless-lib/src/core/gc.rs'), m('gc', 'git-branchless-lib/src/core/gc.rs'), m('unhide', 'git-branchless/src/commands/hide.rs')],
           'observe_at': ['refs/branchless/*', 'object database after git prune'], 'hook_needed': None},
  technique=TECH, level_note='Proved for every set of references and every event history: which references are deleted and created. Assumed: libgit2 reference calls; Git keeps what references reach (exercised with real prune, bounded).'),
 dict(id='C08', title='Hide and unhide concern exactly the commits asked for',
  statement='Hiding marks exactly the commits asked for as hidden (with the recursive option, all their visible descendants too), once each; unhiding likewise restores exactly those asked for (recursively, all hidden descendants). Hiding removes exactly the branches on hidden commits, unless told to keep them, and leaves HEAD on its commit. Nothing else changes, and nothing at all when the arguments cannot be resolved.',
  quantifier={'over': ['inputs', 'histories'], 'text': 'every commit graph, every state of visibility, every set of commits asked for, every combination of options'},
  why_tests_cant='Tests hide one or two commits of a linear stack; merges, hidden commits among the descendants and branches on them are not covered.',
  anchors={'files': ['git-branchless/src/commands/hide.rs'], 'state': [{'name': 'event log', 'meaning': 'visibility', 'where': EL}],
           'mechanism': [m('hide', 'git-branchless/src/commands/hide.rs'), m('unhide', 'git-branchless/src/commands/hide.rs')],
           'observe_at': ['event log', 'refs/heads/*', 'HEAD'], 'hook_needed': None},
  technique=TECH, level_note='Proved for every graph and argument: the events recorded, the branches asked to be moved, HEAD detached before its branch goes. Assumed here: commit-graph queries (C09) and the branch mover; exercised end to end (bounded).'),

 dict(id='C09', title='Commits are classed as public, draft, visible or obsolete by their ancestry',
  statement='A commit is public exactly if it is an ancestor of the main branch (or the main branch itself). The visible commits are the ancestors of HEAD, of every branch, of the main branch and of every observed commit that is not hidden. A draft commit is a visible commit that is not public; the stack of a commit is the set of draft commits that descend from one of its draft ancestors (itself included). A commit marked obsolete stays visible while something visible descends from it or a branch or HEAD points to it. Graph queries (ancestors, descendants, parents, children, heads, roots, ranges, connected components) answer by ancestry alone, whatever the order in which commits were learned.',
  quantifier={'over': ['inputs', 'histories'], 'text': 'every commit graph, every set of references, every event log, every query'},
  why_tests_cant='Tests show small drawn histories through the smartlog; merges, several roots, hidden commits under visible ones and branches on hidden commits combine in ways no snapshot covers.',
  anchors={'files': ['git-branchless-lib/src/core/dag.rs'], 'state': [{'name': 'Dag', 'meaning': 'commit graph with heads, main branch, obsolete and visible commits', 'where': 'git-branchless-lib/src/core/dag.rs'}],
           'mechanism': [m('Dag::open_without_syncing', 'git-branchless-lib/src/core/dag.rs'), m('Dag::query_visible_heads', 'git-branchless-lib/src/core/dag.rs'), m('Dag::query_draft_commits', 'git-branchless-lib/src/core/dag.rs'), m('Dag::query_stack_commits', 'git-branchless-lib/src/core/dag.rs'), m('Dag::get_connected_components', 'git-branchless-lib/src/core/dag.rs')],
           'observe_at': ['results of the Dag queries'], 'hook_needed': None},
  technique=TECH, level_note='Proved: the classification of every commit and the answer of every query, in terms of ancestry. Assumed: the segmented-graph library answers ancestors, ranges, heads and roots by ancestry; exercised on random graphs against an independent computation (bounded).'),
 dict(id='C10', title='A rewritten commit is followed to its newest version',
  statement='Following a commit through its rewrites ends at the newest version: the commit after the last rewrite in each chain, nothing if the commit was never rewritten or came back to itself, and a deletion if the last version was dropped; following always ends, even if rewrites form a cycle. The abandoned children of a rewritten commit are exactly its direct children that are visible and not themselves obsolete; they are reported with the newest version they belong on (the commit itself if it was deleted), and nothing is reported for a commit that was not rewritten.',
  quantifier={'over': ['inputs', 'histories'], 'text': 'every event log including rewrite cycles, every commit graph, every commit'},
  why_tests_cant='Tests restack after one amend; chains, cycles, deletions after rewrites and several abandoned children under merges are rare histories.',
  anchors={'files': ['git-branchless-lib/src/core/rewrite/evolve.rs'], 'state': [{'name': 'rewrite events', 'meaning': 'old commit, new commit or deletion', 'where': EL}],
           'mechanism': [m('find_rewrite_target', 'git-branchless-lib/src/core/rewrite/evolve.rs'), m('find_abandoned_children', 'git-branchless-lib/src/core/rewrite/evolve.rs')],
           'observe_at': ['results of both functions', 'git restack'], 'hook_needed': None},
  technique=TECH, level_note='Proved for every event log and graph, including that following ends. Assumed: the segmented-graph library (as for C09). Executable contract on random logs and repositories (bounded).'),
 dict(id='C11', title='A rewrite that must not happen is refused and changes nothing',
  statement='Moving, rewording, amending or squashing commits is refused, with an error, if it would rewrite a public commit (an ancestor of the main branch) without force, make a commit its own ancestor, squash a commit into itself, or rewrite a root commit that has nothing to be put on. This holds for the commits asked for and for every descendant that would be carried along, including the commit another one is squashed into. A refused command changes nothing: no commit is recorded as rewritten or hidden, no branch, HEAD or file in the working copy changes. Commands that are none of these are not refused.',
  quantifier={'over': ['inputs', 'histories'], 'text': 'every commit graph, state of visibility and set of branches; every set of sources, bases or exact commits, every destination, every combination of insert, fixup and force; reword and amend of every commit'},
  why_tests_cant='Tests refuse a public commit named directly and one cycle; the descendants, squash targets, inserted children and combinations of several sources are not covered.',
  anchors={'files': ['git-branchless-lib/src/core/rewrite/plan.rs', 'git-branchless-move/src/lib.rs', 'git-branchless-reword/src/lib.rs', 'git-branchless/src/commands/amend.rs'], 'state': [{'name': 'RebasePlanPermissions::allowed_commits', 'meaning': 'commits that may be rewritten', 'where': 'git-branchless-lib/src/core/rewrite/plan.rs'}],
           'mechanism': [m('RebasePlanPermissions::verify_rewrite_set', 'git-branchless-lib/src/core/rewrite/plan.rs'), m('ConstraintGraph::check_permissions', 'git-branchless-lib/src/core/rewrite/plan.rs'), m('ConstraintGraph::check_for_cycles', 'git-branchless-lib/src/core/rewrite/plan.rs')],
           'observe_at': ['exit status', 'event log', 'refs/heads/*', 'HEAD', 'working copy'], 'hook_needed': None},
  technique=TECH, level_note='Proved for every graph and set of requests: a plan is built only if every commit it moves or squashes into is allowed, allowed commits are the visible descendants and public only under force, and a cycle is never accepted. Assumed: graph queries (C09). That nothing changes after a refusal is exercised end to end (bounded).'),
 dict(id='C12', title='Moved commits keep their changes and land where they were sent',
  statement='git move rewrites exactly the commits asked for and their visible descendants. Each moved commit gets the parents that follow from the request (the destination for the first, the new version of its old parent for the others; with exact, its children close the gap; with insert, the children of the destination go on top; with fixup, the commits are squashed into the destination), and keeps its message, its author and exactly the change it made: files added, removed, changed, replaced by directories and the reverse, modes and symbolic links. A commit whose change is already there is dropped and its children take its place. Every branch on a rewritten commit follows it to its new version, HEAD too, the working copy matches, and the old versions are hidden. Nothing else changes; on a conflict nothing changes at all.',
  quantifier={'over': ['inputs', 'histories'], 'text': 'every commit graph including merges carried along, every kind of file change, every set of sources, bases or exact commits, every destination, insert, fixup, in memory and on disk'},
  why_tests_cant='Tests move single subtrees with added files; combinations of several sources, hidden descendants, removed and replaced files and dropped commits are not covered.',
  anchors={'files': ['git-branchless-lib/src/core/rewrite/plan.rs', 'git-branchless-lib/src/core/rewrite/execute.rs', 'git-branchless-move/src/lib.rs', 'git-branchless-lib/src/git/repo.rs', 'git-branchless-lib/src/git/tree.rs'], 'state': [{'name': 'RebasePlan', 'meaning': 'commands that make the new commits', 'where': 'git-branchless-lib/src/core/rewrite/plan.rs'}],
           'mechanism': [m('RebasePlanBuilder::build', 'git-branchless-lib/src/core/rewrite/plan.rs'), m('rebase_in_memory', 'git-branchless-lib/src/core/rewrite/execute.rs'), m('move_branches / check_out_updated_head', 'git-branchless-lib/src/core/rewrite/execute.rs'), m('Repo::cherry_pick_fast / amend_fast', 'git-branchless-lib/src/git/repo.rs'), m('hydrate_tree', 'git-branchless-lib/src/git/tree.rs')],
           'observe_at': ['commits, trees, branches and HEAD after git move'], 'hook_needed': None},
  technique=TECH, level_note='Proved for every graph and set of requests: which commits the plan concerns, the parents it asks for and that descendants are carried along. What executing the plan does to trees, branches, HEAD and the log is exercised end to end against an independent computation (bounded).'),
 dict(id='C13', title='Reword, amend and record change one commit and nothing else of its stack',
  statement='reword replaces the messages of exactly the commits asked for; amend gives the commit checked out the staged changes, or all changes to tracked files if none are staged; record makes one new commit of the same changes on top of the commit checked out, on its branch, a new one, or none as asked, and with stash goes back to the commit before. In each case the commit keeps its author and every other file, its visible descendants (with insert, the visible children of the commit recorded on) are rewritten onto the new version with their own message, author and change (with reparent, with their own files), branches and HEAD follow, the old versions are hidden, and nothing else changes. Except when going back to the commit before, no file in the working copy changes; changes not taken stay as they were, untracked files stay untracked.',
  quantifier={'over': ['inputs', 'histories'], 'text': 'every commit graph, every position of HEAD and branches, every kind of change staged or not, every combination of the options'},
  why_tests_cant='Tests amend a modified text file in a linear stack; links, removed and replaced files, mixed staged and unstaged changes, detached HEAD and combinations of options are not covered.',
  anchors={'files': ['git-branchless-reword/src/lib.rs', 'git-branchless/src/commands/amend.rs', 'git-branchless-record/src/lib.rs', 'git-branchless-lib/src/git/repo.rs'], 'state': [{'name': 'commit being replaced', 'meaning': 'old and new version', 'where': 'git-branchless-lib/src/core/rewrite/plan.rs'}],
           'mechanism': [m('reword', 'git-branchless-reword/src/lib.rs'), m('amend', 'git-branchless/src/commands/amend.rs'), m('record / insert_before_siblings', 'git-branchless-record/src/lib.rs'), m('RebasePlanBuilder::replace_commit / move_subtree', 'git-branchless-lib/src/core/rewrite/plan.rs'), m('Repo::amend_fast', 'git-branchless-lib/src/git/repo.rs')],
           'observe_at': ['commits, trees, branches, HEAD, index and working copy'], 'hook_needed': None},
  technique=TECH, level_note='Proved: the plan built for a replaced commit and its descendants (as for C12). The commands themselves are exercised end to end against an independent computation (bounded).'),
 dict(id='C14', title='Restack and sync put stacks exactly where they belong',
  statement='restack moves every visible commit whose parent was rewritten, with its visible descendants, onto the newest version of that parent, and every branch on a rewritten commit to its newest version (removing it if the commit was dropped), updating HEAD and the working copy if they are on such a branch. sync moves every stack of drafts (or those containing the commits named) whose bottom is not on the main branch onto it, and leaves stacks already there alone. Moved commits keep message, author and change, are dropped if their change is already there, and nothing else changes.',
  quantifier={'over': ['inputs', 'histories'], 'text': 'every commit graph, every history of rewrites, every position of branches and HEAD, every set of commits named'},
  why_tests_cant='Tests restack one amended stack and sync a few; chains of rewrites, several abandoned stacks, dropped commits and branches on old versions combine freely.',
  anchors={'files': ['git-branchless/src/commands/restack.rs', 'git-branchless/src/commands/sync.rs', 'git-branchless-lib/src/core/rewrite/evolve.rs', 'git-branchless-lib/src/core/rewrite/plan.rs'], 'state': [{'name': 'rewrite events', 'meaning': 'old and new versions', 'where': EL}],
           'mechanism': [m('restack_commits / restack_branches', 'git-branchless/src/commands/restack.rs'), m('sync / execute_plans', 'git-branchless/src/commands/sync.rs'), m('find_abandoned_children', 'git-branchless-lib/src/core/rewrite/evolve.rs')],
           'observe_at': ['commits, branches, HEAD and working copy'], 'hook_needed': None},
  technique=TECH, level_note='Proved: which commits are abandoned and their newest parent (C10), the plan built from the moves (C12). The commands are exercised end to end (bounded).'),
dict(id='C15', title='A search finds the first failing commits from any results given',
  statement='At every point of a search over a commit graph, the last passing nodes are exactly those known to pass that have no known passing descendant, and the first failing ones those known to fail that have no known failing ancestor. The nodes suggested next are searched nodes that are neither ancestors of a passing one nor descendants of a failing one, nor already known; each is suggested at most once, and as long as there is one left, one is suggested, in the order of the strategy (first, last or the middle of what is left). A result that contradicts an earlier one, or would make a failing node an ancestor of a passing one, is refused and changes nothing; every other result is accepted.',
  quantifier={'over': ['inputs', 'histories'], 'text': 'every finite directed acyclic graph, every set and order of searched nodes, every sequence of results including indeterminate and contradictory ones, every strategy'},
  why_tests_cant='Tests and the property test in the crate cover a few shapes and consistent results; nodes outside the search, merges, repeated and contradictory results and suggestions further down the list are not covered.',
  anchors={'files': ['scm-bisect/src/search.rs', 'scm-bisect/src/basic.rs'], 'state': [{'name': 'Search::nodes', 'meaning': 'the results so far', 'where': 'scm-bisect/src/search.rs'}],
           'mechanism': [m('Search::search', 'scm-bisect/src/search.rs'), m('Search::notify', 'scm-bisect/src/search.rs'), m('BasicStrategy::midpoint', 'scm-bisect/src/basic.rs')],
           'observe_at': ['bounds and suggestions of Search::search, verdict of Search::notify', 'git test run --search'], 'hook_needed': None},
  technique=TECH, level_note='Proved for every graph and sequence of results. Assumed: the graph answers ancestor questions consistently (a partial order); the insertion-ordered map. Executable contract on random graphs (bounded).'),
 dict(id='C16', title='A test run is truthful, isolated and repeated only when needed',
  statement='git test run runs the command for each commit asked for and no other, exactly once, with that commit checked out and nothing else changed, and told which commit it is. The verdict reported for each commit, the counts and the exit status follow from how the command ended (0 passed, 125 skipped, 127 aborts, anything else failed). A stored result is used instead of a run only if the same command has been run on the same files, unless it was cleaned; the stored results can be queried. With a search, the last passing and first failing commits reported are the right ones and no commit is run twice. git test fix replaces exactly the commits whose files the command changes, giving them exactly the files it left behind, with their descendants keeping their own files. In no case do the branches, HEAD, the index or the files of the working copy change otherwise; local changes in the way are refused.',
  quantifier={'over': ['inputs', 'histories'], 'text': 'every commit graph, every set of commits, every command and way to end, any number of jobs, in worktrees or the working copy, with or without local changes, with or without cache'},
  why_tests_cant='Tests use a handful of fixed commands on short stacks; similar commands, staged changes, changes made in worktrees, type changes, several jobs and reuse of results after other runs are not combined.',
  anchors={'files': ['git-branchless-test/src/lib.rs', 'git-branchless-test/src/worker.rs', 'git-branchless-lib/src/git/test.rs', 'git-branchless-lib/src/git/status.rs', 'git-branchless-lib/src/git/run.rs'], 'state': [{'name': 'test cache', 'meaning': 'results by tree and command', 'where': '.git/branchless/test'}],
           'mechanism': [m('make_test_files', 'git-branchless-test/src/lib.rs'), m('run_tests / event_loop', 'git-branchless-test/src/lib.rs'), m('test_commit', 'git-branchless-test/src/lib.rs'), m('apply_fixes', 'git-branchless-test/src/lib.rs'), m('prepare_working_directory', 'git-branchless-test/src/lib.rs')],
           'observe_at': ['runs of the command', 'output and exit status', 'commits, branches, HEAD, index, working copy', 'tests.passed() and the like'], 'hook_needed': None},
  technique=TECH, level_note='Proved: the search that decides what to run (C15) and that workers take every job once and report it (see DESIGN.md). The command as a whole is exercised end to end against an independent account of what ran (bounded).'),
 dict(id='C17', title='A revset expression means what its operators and functions say',
  statement='Text is read with the documented operators, precedence and associativity, function calls and names. A name means the commit git would find under it, whether hidden or not; set operators mean union, intersection and difference; parents, children, ancestors, descendants, siblings, roots, heads, range, only, nth parent and nth ancestor, stack, draft, public, main, branches, current, merges and the text and date patterns mean exactly the commits the commit graph, the event log and the contents of the commits make them mean, restricted to visible commits unless hidden ones are asked for. Aliases mean their definition with the arguments put in. Wrong arity, unknown functions, unknown names and unmet expectations are errors; nothing else is.',
  quantifier={'over': ['inputs', 'histories'], 'text': 'every expression, every commit graph with merges and several roots, every state of visibility and rewrites, every set of branches, every alias'},
  why_tests_cant='Tests evaluate a few dozen expressions on three small graphs; nested operators over hidden, rewritten and merged commits are not covered.',
  anchors={'files': ['git-branchless-revset/src/eval.rs', 'git-branchless-revset/src/builtins.rs', 'git-branchless-revset/src/grammar.lalrpop', 'git-branchless-revset/src/pattern.rs', 'git-branchless-revset/src/resolve.rs'], 'state': [{'name': 'Context', 'meaning': 'repository and commit graph', 'where': 'git-branchless-revset/src/eval.rs'}],
           'mechanism': [m('eval / eval_inner', 'git-branchless-revset/src/eval.rs'), m('builtin functions', 'git-branchless-revset/src/builtins.rs'), m('parse', 'git-branchless-revset/src/parser.rs'), m('Pattern', 'git-branchless-revset/src/pattern.rs'), m('resolve_commits', 'git-branchless-revset/src/resolve.rs')],
           'observe_at': ['git query', 'resolve_commits'], 'hook_needed': None},
  technique=TECH, level_note='Proved: see DESIGN.md. Assumed: the segmented-graph library (as for C09), the generated parser, name lookup by libgit2. Random expressions against an independent evaluation on real repositories (bounded).'),
 dict(id='C18', title='Navigation goes to the commit asked for, and nothing else changes',
  statement='git next and git prev go the given number of steps along the visible commits of the stack, or as far as there are any with all, or to the next branch with branch; where there are several children, git next goes to the newest or the oldest if asked, and otherwise stops at the fork, fails and says which children there are; git prev goes to the first parent. A step counts only draft commits forward. git switch goes to the commit, branch or single commit of the expression named, and creates or detaches a branch if asked. The branch of the commit arrived at is checked out if there is exactly one and switching branches automatically is on, otherwise HEAD is detached. If no target is found, if it is unclear, or if local changes are in the way, the command fails and HEAD stays. Apart from HEAD, the index and the files, nothing changes: no branch moves and local changes survive (with force they may be discarded).',
  quantifier={'over': ['inputs', 'histories'], 'text': 'every commit graph, every state of visibility, every position of HEAD and branches, every combination of the options'},
  why_tests_cant='Tests walk one stack with one fork; hidden commits, forks at several steps, merges, branches in between and local changes combine freely.',
  anchors={'files': ['git-branchless-navigation/src/lib.rs', 'git-branchless-lib/src/core/check_out.rs'], 'state': [{'name': 'HEAD', 'meaning': 'commit and branch checked out', 'where': '.git/HEAD'}],
           'mechanism': [m('advance', 'git-branchless-navigation/src/lib.rs'), m('traverse_commits', 'git-branchless-navigation/src/lib.rs'), m('switch', 'git-branchless-navigation/src/lib.rs'), m('check_out_commit', 'git-branchless-lib/src/core/check_out.rs')],
           'observe_at': ['HEAD, branches, index and working copy', 'exit status'], 'hook_needed': None},
  technique=TECH, level_note='Proved for every graph and every combination of distance and direction: the commit advance arrives at is the end of a trip whose every step goes to the right neighbour, and it gives up only where a step is unclear or there is nowhere to go. Assumed: the segmented-graph library (as for C09). The commands as a whole are exercised end to end (bounded).'),
 dict(id='C19', title='Setting up and removing keeps everything of the user',
  statement='git branchless init installs each of its hooks once, in the place where Git looks for it, whether run from the top, from a directory below or from a linked worktree, with the default or a configured hooks directory; doing it again changes nothing more. Every line of a hook that the user wrote stays, in its order, and the hook of the user still runs as well as ours; settings, aliases and includes of the user stay. Afterwards commits, rewrites and checkouts are recorded from everywhere in the repository. init --uninstall removes the sections and settings that init added and leaves everything else as it was.',
  quantifier={'over': ['inputs', 'histories'], 'text': 'every set of existing hooks (with properly ended sections), settings, aliases and includes; every place to run it from; every sequence of setting up and removing'},
  why_tests_cant='Tests install into an empty repository and over one existing hook; hooks with text around a section, a relative or global hooks directory, subdirectories, worktrees and repetition are not combined.',
  anchors={'files': ['git-branchless-init/src/lib.rs', 'git-branchless-lib/src/core/config.rs', 'git-branchless-lib/src/git/run.rs'], 'state': [{'name': 'hooks', 'meaning': 'files between the markers are ours', 'where': '.git/hooks or core.hooksPath'}],
           'mechanism': [m('update_between_lines / append_hook / update_hook_contents', 'git-branchless-init/src/lib.rs'), m('install_hooks / uninstall_hooks', 'git-branchless-init/src/lib.rs'), m('get_main_worktree_hooks_dir', 'git-branchless-lib/src/core/config.rs'), m('GitRunInfo::run_hook', 'git-branchless-lib/src/git/run.rs')],
           'observe_at': ['files of the hooks', 'git config', 'event log after commands'], 'hook_needed': None},
  technique=TECH, level_note='Proved for every text of a hook: what is outside our section stays, in order, the section is replaced or added once, and no other file is touched. Settings and where hooks are looked for are exercised end to end (bounded).'),
 dict(id='C20', title='A snapshot of the working copy gives everything back',
  statement='A snapshot of the working copy (made before undoing, moving HEAD and testing, or by git branchless snapshot create) holds HEAD and the branch checked out, the index with all stages of conflicted files, and the contents of all tracked files: changed, added, removed, renamed, of another type or mode, replaced by directories or the reverse, staged, unstaged or both. Making one moves no branch and loses no untracked file. Restoring it, from whatever state, brings back exactly that HEAD, branch, index, files and status. What kind of changes there are (none, unstaged, staged, conflicts) is told correctly.',
  quantifier={'over': ['inputs', 'histories'], 'text': 'every commit graph, every state of index and working copy including conflicts of merges and cherry-picks, with and without a branch, every setting of git status, anything done in between'},
  why_tests_cant='Tests snapshot a modified, an added and one conflicted file; renames, files replaced by directories, conflicts with a side that equals HEAD, and conflicted contents are not covered.',
  anchors={'files': ['git-branchless-lib/src/git/snapshot.rs', 'git-branchless-lib/src/core/check_out.rs', 'git-branchless-lib/src/git/status.rs', 'git-branchless-lib/src/git/index.rs', 'git-branchless-lib/src/git/repo.rs'], 'state': [{'name': 'WorkingCopySnapshot', 'meaning': 'commits for the files and for each stage of the index', 'where': 'git-branchless-lib/src/git/snapshot.rs'}],
           'mechanism': [m('create_commit_for_stage / create_commit_for_unstaged_changes', 'git-branchless-lib/src/git/snapshot.rs'), m('restore_snapshot', 'git-branchless-lib/src/core/check_out.rs'), m('get_status', 'git-branchless-lib/src/git/repo.rs')],
           'observe_at': ['HEAD, index, working copy and status before and after'], 'hook_needed': None},
  technique=TECH, level_note='Proved for every status and index: the trees a snapshot stores for the index and the files, and that restoring gives every stage of every path, the files, HEAD and the branch back. Assumed: what Git does on reset, checkout and update-index, what the status says, tree building (hydrate_tree). The round trip as a whole is exercised end to end (bounded).'),
]
