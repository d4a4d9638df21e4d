mod bisect;
mod eventlog;
mod util;

fn main() {
    let (prop, out, mut c) = util::Ctx::from_args();
    std::fs::create_dir_all(&c.scratch).unwrap();
    match prop.as_str() {
        "storage" => eventlog::storage(&mut c),
        "status" => eventlog::status(&mut c),
        "cursor" => eventlog::cursor(&mut c),
        "refs" => eventlog::refs(&mut c),
        "rewrite" => eventlog::rewrite(&mut c),
        "bisect" => bisect::bisect(&mut c),
        p => panic!("unknown contract group {p}"),
    }
    c.finish(&out);
}
