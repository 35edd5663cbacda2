//! Drives `scm_bisect::search` as a caller with several concurrent testers
//! would. One case per input line, one transcript per output line; all
//! judging is done by the caller.
//!
//! Input:  strategy | parents of node 0 , parents of node 1 , ... | nodes to
//!         search | result per node (p f i) | k:pick,pick ... per round | probes n=status ...
//! Output: tokens separated by blanks:
//!         `R` round, `S n` / `F n` bounds, `Q n` proposal, `E` proposal error,
//!         `N n s ok|err` result delivered, `X n s ok|err` probe (on a copy).

use std::collections::HashSet;
use std::convert::Infallible;
use std::fmt::Write as _;
use std::io::{BufRead, Write};

use scm_bisect::basic::{BasicSourceControlGraph, BasicStrategy, BasicStrategyKind};
use scm_bisect::search::{Search, Status};

#[derive(Clone, Debug)]
struct Dag {
    parents: Vec<Vec<usize>>,
    children: Vec<Vec<usize>>,
}

fn closure(node: usize, edges: &[Vec<usize>]) -> HashSet<usize> {
    let mut seen = HashSet::new();
    let mut todo = vec![node];
    while let Some(n) = todo.pop() {
        if seen.insert(n) {
            todo.extend(edges[n].iter().copied());
        }
    }
    seen
}

impl BasicSourceControlGraph for Dag {
    type Node = usize;
    type Error = Infallible;

    fn ancestors(&self, node: usize) -> Result<HashSet<usize>, Infallible> {
        Ok(closure(node, &self.parents))
    }

    fn descendants(&self, node: usize) -> Result<HashSet<usize>, Infallible> {
        Ok(closure(node, &self.children))
    }
}

fn numbers(s: &str) -> Vec<usize> {
    s.split_whitespace().map(|x| x.parse().unwrap()).collect()
}

fn status(c: &str) -> Status {
    match c {
        "p" => Status::Success,
        "f" => Status::Failure,
        "i" => Status::Indeterminate,
        _ => panic!("status {c}"),
    }
}

fn run(line: &str) -> String {
    let f: Vec<&str> = line.split('|').collect();
    let strategy = BasicStrategy::new(match f[0].trim() {
        "linear" => BasicStrategyKind::Linear,
        "reverse" => BasicStrategyKind::LinearReverse,
        "binary" => BasicStrategyKind::Binary,
        other => panic!("strategy {other}"),
    });
    let parents: Vec<Vec<usize>> = f[1].split(',').map(numbers).collect();
    let mut children = vec![Vec::new(); parents.len()];
    for (n, ps) in parents.iter().enumerate() {
        for p in ps {
            children[*p].push(n);
        }
    }
    let results: Vec<&str> = f[3].split_whitespace().collect();
    let mut search = Search::new(Dag { parents, children }, numbers(f[2]));
    let mut rounds = f[4]
        .split_whitespace()
        .map(|r| {
            let (k, picks) = r.split_once(':').unwrap();
            let picks: Vec<usize> = picks
                .split(',')
                .filter(|p| !p.is_empty())
                .map(|p| p.parse().unwrap())
                .collect();
            (k.parse::<usize>().unwrap(), picks)
        })
        .collect::<Vec<_>>()
        .into_iter();

    let mut out = String::new();
    let mut pending: Vec<usize> = Vec::new();
    for _ in 0..10_000 {
        let (k, picks) = rounds.next().unwrap_or((1, vec![0]));
        let proposals = {
            out.push_str("R ");
            let solution = search.search(&strategy).unwrap();
            let mut bounds: Vec<_> = solution.bounds.success.iter().copied().collect();
            bounds.sort_unstable();
            bounds.iter().for_each(|n| write!(out, "S {n} ").unwrap());
            let mut bounds: Vec<_> = solution.bounds.failure.iter().copied().collect();
            bounds.sort_unstable();
            bounds.iter().for_each(|n| write!(out, "F {n} ").unwrap());
            let mut proposals = Vec::new();
            for n in solution.next_to_search.take(k) {
                match n {
                    Ok(n) => {
                        write!(out, "Q {n} ").unwrap();
                        proposals.push(n);
                    }
                    Err(_) => {
                        out.push_str("E ");
                        return out;
                    }
                }
            }
            proposals
        };
        if k > 0 && proposals.is_empty() && pending.is_empty() {
            for probe in f[5].split_whitespace() {
                let (n, s) = probe.split_once('=').unwrap();
                let ok = search.clone().notify(n.parse().unwrap(), status(s)).is_ok();
                write!(out, "X {n} {s} {} ", if ok { "ok" } else { "err" }).unwrap();
            }
            return out;
        }
        for n in proposals {
            if !pending.contains(&n) {
                pending.push(n);
            }
        }
        for pick in picks {
            if pending.is_empty() {
                break;
            }
            let n = pending.remove(pick % pending.len());
            let s = results[n];
            let ok = search.notify(n, status(s)).is_ok();
            write!(out, "N {n} {s} {} ", if ok { "ok" } else { "err" }).unwrap();
        }
    }
    out.push_str("LOOP ");
    out
}

fn main() {
    let stdin = std::io::stdin();
    let mut stdout = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        writeln!(stdout, "{}", run(&line.unwrap())).unwrap();
        stdout.flush().unwrap();
    }
}
