mod dag;
mod git;
mod graph;
mod nav;
mod record;
mod revset;
mod rewrite;
mod setup;
mod snapshot;
mod testing;
mod undo;
#[path = "../../core/src/util.rs"]
mod util;

fn main() {
    let (prop, out, mut c) = util::Ctx::from_args();
    std::fs::create_dir_all(&c.scratch).unwrap();
    match prop.as_str() {
        "undo" => undo::undo(&mut c),
        "record" => record::record(&mut c),
        "gc" => record::gc(&mut c),
        "move" => rewrite::moves(&mut c),
        "refuse" => rewrite::refusals(&mut c),
        "reword" => rewrite::rewords(&mut c),
        "amend" => rewrite::amends(&mut c),
        "sync" => rewrite::syncs(&mut c),
        "restack" => rewrite::restacks(&mut c),
        "commit" => rewrite::recordings(&mut c),
        "revset" => revset::revset(&mut c),
        "nav" => nav::nav(&mut c),
        "snapshot" => snapshot::snapshot(&mut c),
        "setup" => setup::setup(&mut c),
        "test" => testing::testing(&mut c),
        "dag" => dag::dag(&mut c),
        "hide" => dag::hide(&mut c),
        "abandoned" => dag::abandoned(&mut c),
        p => panic!("unknown contract group {p}"),
    }
    c.finish(&out);
}
