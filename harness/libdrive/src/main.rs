//! Feeds event logs to `branchless::core::eventlog`. One case per input line,
//! one answer per output line; all judging is done by the caller. The
//! repository asked for the main branch is the current directory.
//!
//! Input:  events separated by blanks, each one of
//!         `c/TX/OID`, `o/TX/OID`, `u/TX/OID`, `w/TX/OLD/NEW`,
//!         `r/TX/REFNAME/OLD/NEW`, `s/TX/HEAD/COMMIT/REFNAME`
//!         (OIDs are small numbers, 0 is the zero OID; `%` stands for `/` in
//!         names, no name is `-`).
//! Output: fields separated by `|`:
//!         one state per prefix of the input, as seen right then;
//!         one state per cursor position of the whole log;
//!         `from,steps:position` cursor steps by operations;
//!         `from,steps:position` cursor steps by events;
//!         `from:first,count` operations before a cursor;
//!         the events as read back from the database.

use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::str::FromStr;

use branchless::core::eventlog::testing::{
    get_event_replayer_events, new_event_cursor, new_event_replayer, new_event_transaction_id,
};
use branchless::core::eventlog::{
    CommitActivityStatus, Event, EventCursor, EventLogDb, EventReplayer,
};
use branchless::git::{MaybeZeroOid, NonZeroOid, ReferenceName, Repo};

const OIDS: usize = 8;

fn hex(n: usize) -> String {
    format!("{n:040x}")
}

fn oid(s: &str) -> MaybeZeroOid {
    MaybeZeroOid::from_str(&hex(s.parse().unwrap())).unwrap()
}

fn nonzero(s: &str) -> NonZeroOid {
    NonZeroOid::from_str(&hex(s.parse().unwrap())).unwrap()
}

fn num(s: String) -> String {
    match usize::from_str_radix(s.trim_start_matches('0'), 16) {
        Ok(n) if n < 1000 => n.to_string(),
        Err(_) => "0".to_string(),
        Ok(_) => "X".to_string(),
    }
}

fn show(oid: NonZeroOid) -> String {
    let s = oid.to_string();
    if s.starts_with("0000000000") {
        num(s)
    } else {
        "X".to_string()
    }
}

fn show_maybe(oid: MaybeZeroOid) -> String {
    match oid {
        MaybeZeroOid::NonZero(oid) => show(oid),
        MaybeZeroOid::Zero => "0".to_string(),
    }
}

fn opt(s: &str) -> Option<String> {
    if s == "-" {
        None
    } else {
        Some(s.replace('%', "/"))
    }
}

fn parse(token: &str, timestamp: f64) -> Event {
    let f: Vec<&str> = token.split('/').collect();
    let event_tx_id = new_event_transaction_id(f[1].parse().unwrap());
    match f[0] {
        "c" => Event::CommitEvent {
            timestamp,
            event_tx_id,
            commit_oid: nonzero(f[2]),
        },
        "o" => Event::ObsoleteEvent {
            timestamp,
            event_tx_id,
            commit_oid: nonzero(f[2]),
        },
        "u" => Event::UnobsoleteEvent {
            timestamp,
            event_tx_id,
            commit_oid: nonzero(f[2]),
        },
        "w" => Event::RewriteEvent {
            timestamp,
            event_tx_id,
            old_commit_oid: oid(f[2]),
            new_commit_oid: oid(f[3]),
        },
        "r" => Event::RefUpdateEvent {
            timestamp,
            event_tx_id,
            ref_name: ReferenceName::from(f[2].replace('%', "/").as_str()),
            old_oid: oid(f[3]),
            new_oid: oid(f[4]),
            message: None,
        },
        "s" => Event::WorkingCopySnapshot {
            timestamp,
            event_tx_id,
            head_oid: oid(f[2]),
            commit_oid: nonzero(f[3]),
            ref_name: opt(f[4]).map(|s| ReferenceName::from(s.as_str())),
        },
        other => panic!("bad event {other}"),
    }
}

fn render(event: &Event) -> String {
    let tx = event.get_event_tx_id();
    let name = |s: &str| s.replace('/', "%");
    match event {
        Event::CommitEvent { commit_oid, .. } => format!("c/{tx}/{}", show(*commit_oid)),
        Event::ObsoleteEvent { commit_oid, .. } => format!("o/{tx}/{}", show(*commit_oid)),
        Event::UnobsoleteEvent { commit_oid, .. } => format!("u/{tx}/{}", show(*commit_oid)),
        Event::RewriteEvent {
            old_commit_oid,
            new_commit_oid,
            ..
        } => format!(
            "w/{tx}/{}/{}",
            show_maybe(*old_commit_oid),
            show_maybe(*new_commit_oid)
        ),
        Event::RefUpdateEvent {
            ref_name,
            old_oid,
            new_oid,
            ..
        } => format!(
            "r/{tx}/{}/{}/{}",
            name(ref_name.as_str()),
            show_maybe(*old_oid),
            show_maybe(*new_oid)
        ),
        Event::WorkingCopySnapshot {
            head_oid,
            commit_oid,
            ref_name,
            ..
        } => format!(
            "s/{tx}/{}/{}/{}",
            show_maybe(*head_oid),
            show(*commit_oid),
            ref_name
                .as_ref()
                .map(|r| name(r.as_str()))
                .unwrap_or_else(|| "-".into())
        ),
    }
}

fn state(repo: &Repo, replayer: &EventReplayer, cursor: EventCursor) -> String {
    let mut out = String::new();
    for n in 1..=OIDS {
        let oid = nonzero(&n.to_string());
        out.push(
            match replayer.get_cursor_commit_activity_status(cursor, oid) {
                CommitActivityStatus::Active => 'A',
                CommitActivityStatus::Inactive => 'I',
                CommitActivityStatus::Obsolete => 'O',
            },
        );
    }
    let mut oids: Vec<String> = replayer
        .get_cursor_oids(cursor)
        .into_iter()
        .map(show)
        .collect();
    oids.sort();
    write!(out, ";{}", oids.join(",")).unwrap();
    match replayer.get_references_snapshot(repo, cursor) {
        Err(_) => out.push_str(";error"),
        Ok(refs) => {
            let mut branches: Vec<String> = refs
                .branch_oid_to_names
                .iter()
                .flat_map(|(oid, names)| {
                    names
                        .iter()
                        .map(|n| format!("{}={}", n.as_str(), show(*oid)))
                        .collect::<Vec<_>>()
                })
                .collect();
            branches.sort();
            write!(
                out,
                ";{};{};{}",
                refs.head_oid.map(show).unwrap_or_else(|| "-".into()),
                show(refs.main_branch_oid),
                branches.join(",")
            )
            .unwrap();
        }
    }
    out
}

/// The position of a cursor, without looking inside of it.
fn position(replayer: &EventReplayer, cursor: EventCursor) -> String {
    let n = get_event_replayer_events(replayer).len() as isize;
    match (-1..=n + 1).find(|i| new_event_cursor(*i) == cursor) {
        Some(i) => i.to_string(),
        None => "out".to_string(),
    }
}

fn main() {
    let main_name = "refs/heads/master";
    let repo = Repo::from_dir(&std::env::current_dir().unwrap()).unwrap();
    let conn = rusqlite::Connection::open_in_memory().unwrap();
    let stdin = std::io::stdin();
    let mut stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let events: Vec<Event> = line
            .split_whitespace()
            .enumerate()
            .map(|(i, t)| parse(t, 1000.0 + i as f64))
            .collect();
        let mut fields: Vec<String> = Vec::new();

        let mut replayer = new_event_replayer(main_name.into());
        let mut prefixes = vec![format!(
            "0;{}",
            state(&repo, &replayer, replayer.make_default_cursor())
        )];
        for event in &events {
            replayer.process_event(event);
            let cursor = replayer.make_default_cursor();
            prefixes.push(format!(
                "{};{}",
                position(&replayer, cursor),
                state(&repo, &replayer, cursor)
            ));
        }
        fields.push(prefixes.join(" "));

        let n = get_event_replayer_events(&replayer).len() as isize;
        let mut states = Vec::new();
        let mut by_tx = Vec::new();
        let mut by_event = Vec::new();
        let mut before = Vec::new();
        for from in 0..=n {
            let cursor = replayer.make_cursor(from);
            states.push(format!(
                "{};{}",
                position(&replayer, cursor),
                state(&repo, &replayer, cursor)
            ));
            for steps in -3..=3 {
                by_tx.push(format!(
                    "{from},{steps}:{}",
                    position(
                        &replayer,
                        replayer.advance_cursor_by_transaction(cursor, steps)
                    )
                ));
            }
            for steps in [-100, -3, -2, -1, 0, 1, 2, 3, 100] {
                by_event.push(format!(
                    "{from},{steps}:{}",
                    position(&replayer, replayer.advance_cursor(cursor, steps))
                ));
            }
            before.push(match replayer.get_tx_events_before_cursor(cursor) {
                None => format!("{from}:-"),
                Some((first, events)) => format!("{from}:{first},{}", events.len()),
            });
        }
        for id in [-5, -1, n + 1, n + 7] {
            by_event.push(format!(
                "make,{id}:{}",
                position(&replayer, replayer.make_cursor(id))
            ));
        }
        fields.push(states.join(" "));
        fields.push(by_tx.join(" "));
        fields.push(by_event.join(" "));
        fields.push(before.join(" "));

        let db = EventLogDb::new(&conn).unwrap();
        let old = db.get_events().unwrap().len();
        // In batches, as the hooks record them.
        let mut batch: Vec<Event> = Vec::new();
        for event in events.iter().cloned() {
            if let Some(last) = batch.last() {
                if last.get_event_tx_id() != event.get_event_tx_id() {
                    db.add_events(std::mem::take(&mut batch)).unwrap();
                }
            }
            batch.push(event);
        }
        db.add_events(batch).unwrap();
        let read: Vec<String> = db.get_events().unwrap()[old..].iter().map(render).collect();
        conn.execute("DELETE FROM event_log", []).ok();
        fields.push(read.join(" "));

        writeln!(stdout, "{}", fields.join("|")).unwrap();
        stdout.flush().unwrap();
    }
}
