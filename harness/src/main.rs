//! Executes requests against the code under test: one JSON request per line in, one JSON
//! result per line out. It decides nothing; the specification does.
mod among;
mod hooks;
#[macro_use]
mod json;
mod link;
mod objects;
mod session;
mod tables;
mod util;
mod weigh;

use json::J;
use std::io::{BufRead, Write};

/// What performs the steps of a run, unless that is a session.
fn machine(q: &J) -> objects::Machine {
    match q.at("op").str() {
        "link" => link::link(),
        "chunks" => objects::chunks(),
        "message" => objects::message(),
        "queue" => objects::queue(q),
        "ids" => objects::ids(),
        "permits" => objects::permits(),
        "setup" => objects::setup(),
        "values" => objects::values(),
        "tables" => tables::tables(),
        "twins" => link::twins(),
        "weigh" => weigh::weigh(),
        op => json::bad(op),
    }
}

fn run(q: &J) -> J {
    match q.at("op").str() {
        "session" => session::session(q),
        "among" => among::among(q),
        _ => objects::script(q, machine(q)),
    }
}

#[global_allocator]
static SCALES: weigh::Scales = weigh::Scales;

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    session::listen();
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = stdout.lock();
    let mut line = String::new();
    for q in stdin.lock().lines() {
        let q = json::parse(&q.expect("stdin"));
        let r = run(&q);
        line.clear();
        json::write(&r, &mut line);
        line.push('\n');
        out.write_all(line.as_bytes()).expect("stdout");
        out.flush().expect("stdout");
    }
}
