//! A scratch repository driven through the git and git-branchless executables.
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::process::{Command, Stdio};

use lib::core::effects::Effects;
use lib::core::eventlog::{EventLogDb, EventReplayer};
use lib::core::formatting::Glyphs;
use lib::git::{GitRunInfo, Repo};

/// Where the executables under test were built.
pub fn bin() -> String {
    std::env::var("VERIF_BIN_DIR").unwrap_or_else(|_| "/repo/target/debug".into())
}

pub struct Git {
    pub dir: PathBuf,
    pub time: u64,
    pub log: Vec<String>,
}

pub struct Out {
    pub ok: bool,
    pub code: i32,
    pub out: String,
    pub err: String,
}

impl Git {
    /// A fresh directory `name` below `scratch`.
    pub fn fresh(scratch: &std::path::Path, name: &str) -> Git {
        let dir = scratch.join(name);
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        Git { dir: dir.canonicalize().unwrap(), time: 0, log: vec![] }
    }

    /// A fresh repository with one commit on `main`, set up for branchless use.
    pub fn branchless(scratch: &std::path::Path, name: &str) -> Git {
        let mut g = Git::fresh(scratch, name);
        g.must(&["init", "-q", "-b", "main"]);
        g.write("base.txt", "base\n");
        g.must(&["add", "."]);
        g.must(&["commit", "-q", "-m", "base"]);
        g.must(&["branchless", "init", "--main-branch", "main"]);
        g.log.clear();
        g
    }

    pub fn env(&self) -> BTreeMap<String, String> {
        let date = format!("{} +0000", 1_700_000_000 + self.time);
        let home = self.dir.display().to_string();
        [
            ("GIT_CONFIG_NOSYSTEM", "1"),
            ("GIT_CONFIG_GLOBAL", "/dev/null"),
            ("GIT_AUTHOR_NAME", "A U Thor"),
            ("GIT_AUTHOR_EMAIL", "author@example.com"),
            ("GIT_COMMITTER_NAME", "C O Mitter"),
            ("GIT_COMMITTER_EMAIL", "committer@example.com"),
            ("GIT_AUTHOR_DATE", date.as_str()),
            ("GIT_COMMITTER_DATE", date.as_str()),
            ("GIT_EDITOR", ":"),
            ("GIT_CEILING_DIRECTORIES", home.rsplit_once('/').unwrap().0),
            ("HOME", home.as_str()),
            ("LC_ALL", "C"),
            ("PATH", &format!("{}:/usr/bin:/bin", bin())),
        ]
        .iter()
        .map(|(k, v)| (k.to_string(), v.to_string()))
        .collect()
    }

    pub fn run_env(&mut self, args: &[&str], extra: &[(&str, &str)], input: Option<&[u8]>) -> Out {
        self.time += 10;
        self.log.push(format!("git {}", args.join(" ")));
        if std::env::var_os("VH_TRACE").is_some() {
            eprintln!("git {}", args.join(" "));
        }
        let mut c = Command::new("/usr/bin/git");
        c.args(args).current_dir(&self.dir).env_clear().envs(self.env()).envs(extra.iter().copied());
        c.stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut p = c.spawn().unwrap();
        if let Some(i) = input {
            use std::io::Write;
            let _ = p.stdin.take().unwrap().write_all(i);
        }
        let o = p.wait_with_output().unwrap();
        if std::env::var_os("VH_TRACE").is_some() {
            eprintln!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
        }
        Out {
            ok: o.status.success(),
            code: o.status.code().unwrap_or(-1),
            out: String::from_utf8_lossy(&o.stdout).into_owned(),
            err: String::from_utf8_lossy(&o.stderr).into_owned(),
        }
    }

    pub fn run(&mut self, args: &[&str]) -> Out {
        self.run_env(args, &[], None)
    }

    /// Output of a command that only looks.
    pub fn get(&self, args: &[&str]) -> String {
        let o = Command::new("/usr/bin/git").args(args).current_dir(&self.dir).env_clear().envs(self.env()).output().unwrap();
        String::from_utf8_lossy(&o.stdout).trim_end().to_string()
    }

    #[track_caller]
    pub fn must(&mut self, args: &[&str]) -> String {
        let o = self.run(args);
        assert!(o.ok, "git {args:?} failed: {}{}", o.out, o.err);
        o.out.trim_end().to_string()
    }

    pub fn write(&self, path: &str, text: &str) {
        let p = self.dir.join(path);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, text).unwrap();
    }

    /// Add a file and commit it; the commit's id.
    pub fn commit(&mut self, path: &str, text: &str, msg: &str) -> String {
        self.write(path, text);
        self.must(&["add", "-A"]);
        self.must(&["commit", "-q", "--allow-empty", "-m", msg]);
        self.get(&["rev-parse", "HEAD"])
    }

    pub fn refs(&self) -> BTreeMap<String, String> {
        self.get(&["for-each-ref", "--format=%(refname) %(objectname)", "refs/heads"])
            .lines()
            .filter_map(|l| l.split_once(' ').map(|(a, b)| (a.to_string(), b.to_string())))
            .collect()
    }

    pub fn head(&self) -> String {
        self.get(&["rev-parse", "-q", "--verify", "HEAD"])
    }

    pub fn repo(&self) -> Repo {
        Repo::from_dir(&self.dir).unwrap()
    }

    pub fn run_info(&self) -> GitRunInfo {
        GitRunInfo {
            path_to_git: "/usr/bin/git".into(),
            working_directory: self.dir.clone(),
            env: self.env().into_iter().map(|(k, v)| (k.into(), v.into())).collect(),
        }
    }

    pub fn replayer(&self, repo: &Repo) -> EventReplayer {
        let conn = repo.get_db_conn().unwrap();
        let db = EventLogDb::new(&conn).unwrap();
        EventReplayer::from_event_log_db(&quiet(), repo, &db).unwrap()
    }
}

pub fn quiet() -> Effects {
    Effects::new_suppress_for_test(Glyphs::text())
}
