//! Executable contracts of the event log (properties C01 to C04). The oracles
//! are written from the property statements, over plain event lists.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::Path;
use std::process::Command;

use branchless::core::effects::Effects;
use branchless::core::eventlog::testing::{get_event_replayer_events, new_event_transaction_id};
use branchless::core::eventlog::{CommitActivityStatus, Event, EventCursor, EventLogDb, EventReplayer, EventTransactionId};
use branchless::core::formatting::Glyphs;
use branchless::git::{MaybeZeroOid, NonZeroOid, ReferenceName, Repo};
use serde_json::json;

use crate::util::{hash, Ctx, Rng};

pub fn oid(n: usize) -> NonZeroOid {
    format!("{:040x}", n + 1).parse().unwrap()
}

const REFS: &[&str] = &[
    "HEAD",
    "refs/heads/main",
    "refs/heads/a",
    "refs/heads/feature/b",
    "refs/tags/v1",
    "refs/remotes/origin/main",
    "refs/stash",
    "HEADS",
    "refs/heads",
    "refs/headsup/x",
    "refs/branchless",
    "MERGE_HEAD",
    "refs/heads/HEAD",
    "refs/heads/ORIG_HEAD",
];
const IGNORED: &[&str] = &[
    "ORIG_HEAD",
    "CHERRY_PICK",
    "REBASE_HEAD",
    "CHERRY_PICK_HEAD",
    "AUTO_MERGE",
    "FETCH_HEAD",
    "refs/branchless/abc",
    "refs/branchless/",
];

struct Pool {
    oids: Vec<NonZeroOid>,
    refs: Vec<String>,
    ts: f64,
}

fn maybe(r: &mut Rng, p: &Pool) -> MaybeZeroOid {
    if r.chance(1, 4) {
        MaybeZeroOid::Zero
    } else {
        MaybeZeroOid::NonZero(*r.pick(&p.oids))
    }
}

fn gen_event(r: &mut Rng, p: &mut Pool, tx: EventTransactionId, wild: bool) -> Event {
    let timestamp = if wild && r.chance(1, 3) {
        *r.pick(&[0.0, -1.5, 1e300, f64::MIN_POSITIVE, 1700000000.123456, f64::MAX, 4503599627370497.5])
    } else {
        p.ts += r.below(3) as f64;
        p.ts
    };
    let event_tx_id = tx;
    match r.below(10) {
        0 | 1 => Event::RewriteEvent { timestamp, event_tx_id, old_commit_oid: maybe(r, p), new_commit_oid: maybe(r, p) },
        2 | 3 | 4 => {
            let message = match r.below(4) {
                0 => None,
                1 => Some(ReferenceName::from("")),
                2 => Some(ReferenceName::from("reference-transaction")),
                _ => Some(ReferenceName::from("checkout: moving 'x' → \"y\"; -- \n;")),
            };
            let ref_name = r.pick(&p.refs).as_str().into();
            // deletions often lose the old position, and are often repeated
            let (old_oid, new_oid) = match r.below(4) {
                0 => (MaybeZeroOid::Zero, MaybeZeroOid::Zero),
                1 => (maybe(r, p), MaybeZeroOid::Zero),
                _ => (maybe(r, p), maybe(r, p)),
            };
            Event::RefUpdateEvent { timestamp, event_tx_id, ref_name, old_oid, new_oid, message }
        }
        5 | 6 => Event::CommitEvent { timestamp, event_tx_id, commit_oid: *r.pick(&p.oids) },
        7 => Event::ObsoleteEvent { timestamp, event_tx_id, commit_oid: *r.pick(&p.oids) },
        8 => Event::UnobsoleteEvent { timestamp, event_tx_id, commit_oid: *r.pick(&p.oids) },
        _ => Event::WorkingCopySnapshot {
            timestamp,
            event_tx_id,
            head_oid: maybe(r, p),
            commit_oid: *r.pick(&p.oids),
            ref_name: match r.below(3) {
                0 => None,
                1 => Some("refs/heads/main".into()),
                _ => Some(r.pick(&p.refs).as_str().into()),
            },
        },
    }
}

pub fn gen_events(r: &mut Rng, n: usize, ignored: bool, wild: bool) -> Vec<Event> {
    let k = 1 + r.below(4);
    let mut refs: Vec<String> = vec![];
    for _ in 0..1 + r.below(4) {
        refs.push(r.pick(REFS).to_string());
    }
    if r.chance(2, 3) {
        refs.push("HEAD".into());
        refs.push("refs/heads/main".into());
    }
    if ignored {
        refs.push(r.pick(IGNORED).to_string());
    }
    if wild {
        refs.push("refs/heads/ünï'\"code\\".into());
        refs.push("".into());
    }
    let mut p = Pool { oids: (0..k).map(oid).collect(), refs, ts: 1000.0 };
    let mut tx = r.below(3) as isize;
    let mut out = vec![];
    for _ in 0..n {
        if r.chance(1, 2) {
            tx += 1 + r.below(2) as isize;
        }
        if r.chance(1, 20) && tx > 1 {
            tx -= 1; // transactions of concurrent commands interleave
        }
        let e = gen_event(r, &mut p, new_event_transaction_id(tx), wild);
        out.push(e.clone());
        if let Event::RefUpdateEvent { new_oid: MaybeZeroOid::Zero, .. } = e {
            if r.chance(1, 3) {
                out.push(e);
            }
        }
    }
    out
}

fn touches(e: &Event) -> Vec<(NonZeroOid, bool)> {
    match e {
        Event::RewriteEvent { old_commit_oid, new_commit_oid, .. } => {
            let mut v = vec![];
            if let MaybeZeroOid::NonZero(o) = old_commit_oid {
                v.push((*o, false));
            }
            if let MaybeZeroOid::NonZero(o) = new_commit_oid {
                v.push((*o, true));
            }
            v
        }
        Event::CommitEvent { commit_oid, .. } | Event::UnobsoleteEvent { commit_oid, .. } => vec![(*commit_oid, true)],
        Event::ObsoleteEvent { commit_oid, .. } => vec![(*commit_oid, false)],
        Event::RefUpdateEvent { .. } | Event::WorkingCopySnapshot { .. } => vec![],
    }
}

fn is_ignored(name: &str) -> bool {
    name.starts_with("refs/branchless/")
        || ["ORIG_HEAD", "CHERRY_PICK", "REBASE_HEAD", "CHERRY_PICK_HEAD", "AUTO_MERGE", "FETCH_HEAD"].contains(&name)
}

/// The timeline a list of recorded events stands for.
pub fn timeline(events: &[Event]) -> Vec<Event> {
    let mut out: Vec<Event> = vec![];
    let mut locs: HashMap<String, NonZeroOid> = HashMap::new();
    for e in events {
        let mut e = e.clone();
        if let Event::RefUpdateEvent { ref_name, old_oid, new_oid, .. } = &mut e {
            if is_ignored(ref_name.as_str()) {
                continue;
            }
            if *old_oid == MaybeZeroOid::Zero && *new_oid == MaybeZeroOid::Zero {
                if let Some(o) = locs.get(ref_name.as_str()) {
                    *old_oid = MaybeZeroOid::NonZero(*o);
                }
            }
        }
        if let (
            Event::RefUpdateEvent { ref_name, new_oid: MaybeZeroOid::Zero, message, .. },
            Some(Event::RefUpdateEvent { ref_name: r2, new_oid: MaybeZeroOid::Zero, message: m2, .. }),
        ) = (&e, out.last())
        {
            if ref_name == r2 && message == m2 {
                continue;
            }
        }
        if let Event::RefUpdateEvent { ref_name, new_oid, .. } = &e {
            match new_oid {
                MaybeZeroOid::NonZero(o) => locs.insert(ref_name.as_str().to_string(), *o),
                MaybeZeroOid::Zero => locs.remove(ref_name.as_str()),
            };
        }
        out.push(e);
    }
    out
}

pub fn tx_of(e: &Event) -> EventTransactionId {
    match e {
        Event::RewriteEvent { event_tx_id, .. }
        | Event::RefUpdateEvent { event_tx_id, .. }
        | Event::CommitEvent { event_tx_id, .. }
        | Event::ObsoleteEvent { event_tx_id, .. }
        | Event::UnobsoleteEvent { event_tx_id, .. }
        | Event::WorkingCopySnapshot { event_tx_id, .. } => *event_tx_id,
    }
}

/// Scratch repository with a main branch at a known commit.
pub fn scratch_repo(dir: &Path) -> (Repo, NonZeroOid) {
    std::fs::create_dir_all(dir).unwrap();
    let run = |args: &[&str]| {
        let o = Command::new("git")
            .current_dir(dir)
            .args(args)
            .env("GIT_CONFIG_NOSYSTEM", "1")
            .env("HOME", dir)
            .env("GIT_AUTHOR_NAME", "t")
            .env("GIT_AUTHOR_EMAIL", "t@e")
            .env("GIT_COMMITTER_NAME", "t")
            .env("GIT_COMMITTER_EMAIL", "t@e")
            .output()
            .unwrap();
        assert!(o.status.success(), "git {args:?}: {}", String::from_utf8_lossy(&o.stderr));
        String::from_utf8(o.stdout).unwrap().trim().to_string()
    };
    run(&["init", "-q", "-b", "main", "."]);
    run(&["config", "branchless.core.mainBranch", "main"]);
    run(&["commit", "-q", "--allow-empty", "-m", "init"]);
    let o = run(&["rev-parse", "HEAD"]);
    (Repo::from_dir(dir).unwrap(), o.parse().unwrap())
}

struct World {
    effects: Effects,
    repo: Repo,
    main_oid: NonZeroOid,
}

fn world(c: &Ctx) -> World {
    let (repo, main_oid) = scratch_repo(&c.scratch.join("repo"));
    World { effects: Effects::new_suppress_for_test(Glyphs::text()), repo, main_oid }
}

fn store_and_replay(w: &World, events: &[Event]) -> EventReplayer {
    let conn = rusqlite::Connection::open_in_memory().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    db.add_events(events.to_vec()).unwrap();
    EventReplayer::from_event_log_db(&w.effects, &w.repo, &db).unwrap()
}

fn show(es: &[Event]) -> serde_json::Value {
    json!(es.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>())
}

fn size(r: &mut Rng, case: u64) -> usize {
    if case < 50 {
        case as usize % 7
    } else if r.chance(1, 10) {
        r.below(60)
    } else {
        r.below(14)
    }
}

fn same(a: &Event, b: &Event) -> bool {
    // `Debug` prints f64 shortest round-trip, so equal text is equal bits up to NaN
    a == b && format!("{a:?}") == format!("{b:?}")
}

/// C01: what was recorded is read back, and nothing else.
pub fn storage(c: &mut Ctx) {
    let path = c.scratch.join("log.db");
    c.run(|c, r, case| {
        let _ = std::fs::remove_file(&path);
        let mut expect: Vec<Event> = vec![];
        let batches = 1 + r.below(4);
        for _ in 0..batches {
            let n = size(r, case);
            let mut batch = gen_events(r, n, true, true);
            let suppressed = r.chance(1, 4);
            let mut kept = vec![];
            for e in batch.iter_mut() {
                if suppressed && r.chance(1, 2) {
                    suppress(e);
                } else {
                    kept.push(e.clone());
                }
            }
            let conn = rusqlite::Connection::open(&path).unwrap();
            conn.execute_batch("PRAGMA synchronous=OFF").unwrap();
            let db = EventLogDb::new(&conn).unwrap();
            db.add_events(batch).unwrap();
            expect.extend(kept);
            if r.chance(1, 3) {
                drop(db);
                let got = EventLogDb::new(&conn).unwrap().get_events();
                check_storage(c, &expect, got);
            }
        }
        let conn = rusqlite::Connection::open(&path).unwrap();
        let db = EventLogDb::new(&conn).unwrap();
        check_storage(c, &expect, db.get_events());
        // transactions: fresh, and their message is kept
        let mut ids = BTreeSet::new();
        for i in 0..r.below(4) {
            let m = format!("msg {i} 'q\"");
            let t = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(r.below(1000) as u64);
            let id = db.make_transaction_id(t, &m).unwrap();
            let n: isize = id.to_string().parse().unwrap_or(-1);
            if !ids.insert(n) {
                c.violation("tx-reused", format!("transaction id {id} handed out twice"), json!({"n": i}));
            }
            if db.get_transaction_message(id).ok().as_deref() != Some(m.as_str()) {
                c.violation("tx-message", format!("message of transaction {id} lost"), json!({"message": m}));
            }
            c.eval(None);
        }
    });
}

fn suppress(e: &mut Event) {
    match e {
        Event::RewriteEvent { event_tx_id, .. }
        | Event::RefUpdateEvent { event_tx_id, .. }
        | Event::CommitEvent { event_tx_id, .. }
        | Event::ObsoleteEvent { event_tx_id, .. }
        | Event::UnobsoleteEvent { event_tx_id, .. }
        | Event::WorkingCopySnapshot { event_tx_id, .. } => *event_tx_id = EventTransactionId::Suppressed,
    }
}

fn check_storage(c: &mut Ctx, expect: &[Event], got: eyre::Result<Vec<Event>>) {
    let h = hash(&format!("{expect:?}"));
    c.eval(if expect.len() > 1 { Some(h) } else { None });
    match got {
        Err(e) => c.violation("unreadable", format!("stored events cannot be read back: {e:#}"), show(expect)),
        Ok(got) => {
            let ok = got.len() == expect.len() && got.iter().zip(expect).all(|(a, b)| same(a, b));
            if !ok {
                c.violation(
                    "storage",
                    format!("events read back differ from the events recorded: {}", diff(expect, &got)),
                    json!({"recorded": show(expect), "read": show(&got)}),
                );
            } else if c.samples.len() < 2 && expect.len() > 2 {
                c.samples.push(json!({"events": expect.len(), "first": format!("{:?}", expect[0])}));
            }
        }
    }
}

fn diff(a: &[Event], b: &[Event]) -> String {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if same(x, y) => {}
            (x, y) => return format!("at {i}: expected {x:?}, got {y:?}"),
        }
    }
    String::new()
}

/// C02: visibility of a commit at a point of the timeline.
pub fn status(c: &mut Ctx) {
    let w = world(c);
    c.run(|c, r, case| {
        let n = size(r, case);
        let es = gen_events(r, n, true, false);
        let rp = store_and_replay(&w, &es);
        let tl = timeline(&es);
        let got = get_event_replayer_events(&rp);
        if got.len() != tl.len() || !got.iter().zip(&tl).all(|(a, b)| same(a, b)) {
            c.violation("timeline", format!("replayed timeline differs: {}", diff(&tl, got)), show(&es));
            return;
        }
        for k in 0..=tl.len() {
            let cur = rp.make_cursor(k as isize);
            let mut seen: BTreeMap<NonZeroOid, (bool, Event)> = BTreeMap::new();
            for e in &tl[..k] {
                for (o, show) in touches(e) {
                    seen.insert(o, (show, e.clone()));
                }
            }
            let oids: HashSet<NonZeroOid> = rp.get_cursor_oids(cur);
            if oids != seen.keys().copied().collect() {
                c.violation("oids", format!("commits observed as of position {k}: got {oids:?}"), show(&tl));
            }
            for i in 0..6 {
                let o = oid(i);
                let want = match seen.get(&o) {
                    None => "Inactive",
                    Some((true, _)) => "Active",
                    Some((false, _)) => "Obsolete",
                };
                let got = match rp.get_cursor_commit_activity_status(cur, o) {
                    CommitActivityStatus::Active => "Active",
                    CommitActivityStatus::Inactive => "Inactive",
                    CommitActivityStatus::Obsolete => "Obsolete",
                };
                if want != got {
                    c.violation("status", format!("commit {o} as of position {k} is {got}, its last event says {want}"), show(&tl));
                }
                let le = rp.get_cursor_commit_latest_event(cur, o).cloned();
                let wl = seen.get(&o).map(|x| x.1.clone());
                if le != wl {
                    c.violation("latest", format!("latest event of {o} as of position {k}: expected {wl:?}, got {le:?}"), show(&tl));
                }
                c.eval(if seen.contains_key(&o) { Some(hash(&format!("{:?}{k}{i}", &tl[..k]))) } else { None });
            }
        }
        if c.samples.len() < 2 && tl.len() > 3 {
            c.samples.push(json!({"timeline": show(&tl)}));
        }
    });
}

fn step_by_tx(tl: &[Event], k: usize, n: isize) -> usize {
    // boundaries of the timeline: positions whose neighbours belong to different transactions
    let len = tl.len();
    let tb = |k: usize| if k == 0 { None } else { Some(tx_of(&tl[k - 1])) };
    let boundary = |k: usize| k == len || tb(k) != tb(k + 1);
    let snap = |mut k: usize| {
        while !boundary(k) {
            k += 1;
        }
        k
    };
    if len == 0 {
        return k;
    }
    let mut k = snap(k);
    let mut n = n;
    while n > 0 {
        if k == len {
            return k;
        }
        k = snap(k + 1);
        n -= 1;
    }
    while n < 0 {
        if k == 0 {
            return 0;
        }
        k -= 1;
        while k > 0 && !boundary(k) {
            k -= 1;
        }
        n += 1;
    }
    k
}

/// C03: moving through the timeline.
pub fn cursor(c: &mut Ctx) {
    let w = world(c);
    c.run(|c, r, case| {
        let n = size(r, case);
        let es = gen_events(r, n, false, false);
        let rp = store_and_replay(&w, &es);
        let tl = timeline(&es);
        let len = tl.len() as isize;
        let pos = |c: EventCursor| len - rp.get_events_since_cursor(c).len() as isize;
        if pos(rp.make_default_cursor()) != len {
            c.violation("default", "the default position is not the end of the timeline".into(), show(&tl));
        }
        for k in -3..=len + 3 {
            let cur = rp.make_cursor(k);
            let kk = k.clamp(0, len);
            if pos(cur) != kk {
                c.violation("clamp", format!("position {k} of {len} became {}", pos(cur)), show(&tl));
            }
            let since = rp.get_events_since_cursor(cur);
            if since != &tl[kk as usize..] {
                c.violation("since", format!("events since position {kk} are wrong"), show(&tl));
            }
            let before = rp.get_event_before_cursor(cur).map(|(i, e)| (i, e.clone()));
            let want = if kk == 0 { None } else { Some((kk, tl[kk as usize - 1].clone())) };
            if before != want {
                c.violation("before", format!("event before position {kk}: expected {want:?}, got {before:?}"), show(&tl));
            }
            for d in [-7, -2, -1, 0, 1, 2, 7] {
                let got = pos(rp.advance_cursor(cur, d));
                if got != (kk + d).clamp(0, len) {
                    c.violation("advance", format!("position {kk} advanced by {d} became {got}"), show(&tl));
                }
                let got = pos(rp.advance_cursor_by_transaction(cur, d)) as usize;
                let want = step_by_tx(&tl, kk as usize, d);
                if got != want {
                    c.violation("advance-tx", format!("position {kk} advanced by {d} transactions became {got}, expected {want}"), show(&tl));
                }
                c.eval(if want != kk as usize { Some(hash(&format!("{tl:?}{kk}{d}"))) } else { None });
            }
            let prev = step_by_tx(&tl, kk as usize, -1);
            let got = rp.get_tx_events_before_cursor(cur).map(|(i, es)| (i, es.to_vec()));
            let want = if prev >= kk as usize { None } else { Some((prev as isize + 1, tl[prev..kk as usize].to_vec())) };
            if got != want {
                c.violation("tx-before", format!("transaction before position {kk}: expected {want:?}, got {got:?}"), show(&tl));
            }
        }
        if c.samples.len() < 2 && tl.len() > 3 {
            c.samples.push(json!({"timeline": show(&tl)}));
        }
    });
}

/// C04: references at a point of the timeline.
pub fn refs(c: &mut Ctx) {
    let w = world(c);
    c.run(|c, r, case| {
        let n = size(r, case);
        let es = gen_events(r, n, true, false);
        let rp = store_and_replay(&w, &es);
        let tl = timeline(&es);
        for k in 0..=tl.len() {
            let cur = rp.make_cursor(k as isize);
            let snap = rp.get_references_snapshot(&w.repo, cur).unwrap();
            let mut head = None;
            let mut main = w.main_oid;
            let mut locs: BTreeMap<String, NonZeroOid> = BTreeMap::new();
            for e in &tl[..k] {
                match e {
                    Event::RefUpdateEvent { ref_name, new_oid, .. } => match new_oid {
                        MaybeZeroOid::NonZero(o) => {
                            locs.insert(ref_name.as_str().into(), *o);
                            if ref_name.as_str() == "HEAD" {
                                head = Some(*o);
                            }
                            if ref_name.as_str() == "refs/heads/main" {
                                main = *o;
                            }
                        }
                        MaybeZeroOid::Zero => {
                            locs.remove(ref_name.as_str());
                        }
                    },
                    Event::CommitEvent { commit_oid, .. } => head = Some(*commit_oid),
                    Event::WorkingCopySnapshot { head_oid: MaybeZeroOid::NonZero(o), .. } => head = Some(*o),
                    _ => {}
                }
            }
            let mut want: BTreeMap<NonZeroOid, BTreeSet<String>> = BTreeMap::new();
            for (n, o) in &locs {
                if n.starts_with("refs/heads/") {
                    want.entry(*o).or_default().insert(n.clone());
                }
            }
            want.entry(main).or_default().insert("refs/heads/main".into());
            let got: BTreeMap<NonZeroOid, BTreeSet<String>> = snap
                .branch_oid_to_names
                .iter()
                .map(|(o, ns)| (*o, ns.iter().map(|n| n.as_str().to_string()).collect()))
                .collect();
            if snap.head_oid != head {
                c.violation("head", format!("HEAD as of position {k}: expected {head:?}, got {:?}", snap.head_oid), show(&tl));
            }
            if snap.main_branch_oid != main {
                c.violation("main", format!("main branch as of position {k}: expected {main:?}, got {:?}", snap.main_branch_oid), show(&tl));
            }
            if got != want {
                c.violation("branches", format!("branches as of position {k}: expected {want:?}, got {got:?}"), show(&tl));
            }
            c.eval(if locs.len() > 1 { Some(hash(&format!("{:?}", &tl[..k]))) } else { None });
        }
        if c.samples.len() < 2 && tl.len() > 3 {
            c.samples.push(json!({"timeline": show(&tl)}));
        }
    });
}

/// C10: what became of a rewritten commit, by following the events one by one.
pub fn rewrite(c: &mut Ctx) {
    let w = world(c);
    c.run(|c, r, case| {
        let n = size(r, case) * 2;
        let mut es = gen_events(r, n, true, false);
        for e in es.iter_mut() {
            // mostly rewrites
            if r.chance(2, 3) {
                let tx = tx_of(e);
                *e = Event::RewriteEvent {
                    timestamp: 0.0,
                    event_tx_id: tx,
                    old_commit_oid: if r.chance(1, 20) { MaybeZeroOid::Zero } else { oid(r.below(6)).into() },
                    new_commit_oid: if r.chance(1, 8) { MaybeZeroOid::Zero } else { oid(r.below(6)).into() },
                };
            }
        }
        let rp = store_and_replay(&w, &es);
        let tl = timeline(&es);
        for k in 0..=tl.len() {
            let cur = rp.make_cursor(k as isize);
            for i in 0..6 {
                let start = oid(i);
                let mut at = start;
                let mut want = None;
                loop {
                    let last = tl[..k].iter().rev().find(|e| touches(e).iter().any(|(o, _)| *o == at));
                    match last {
                        Some(Event::RewriteEvent { old_commit_oid: MaybeZeroOid::NonZero(o), new_commit_oid, .. }) if *o == at && *new_commit_oid != MaybeZeroOid::NonZero(at) => {
                            want = Some(*new_commit_oid);
                            match new_commit_oid {
                                MaybeZeroOid::NonZero(n) => at = *n,
                                MaybeZeroOid::Zero => break,
                            }
                        }
                        _ => break,
                    }
                }
                let got = branchless::core::rewrite::find_rewrite_target(&rp, cur, start);
                c.eval(want.map(|_| hash(&format!("{:?}{k}{i}", &tl[..k]))));
                if got != want {
                    c.violation("target", format!("as of position {k}, commit {start} became {got:?}, by its events {want:?}"), show(&tl));
                }
            }
        }
    });
}
