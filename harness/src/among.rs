//! Several runs in one process: turn by turn on one thread, or each on a thread of its own.
use crate::json::*;
use crate::objects::{together, Machine};
use crate::session::{runtime, silence, Player};
use crate::util::*;

enum Part {
    Steps(Machine),
    Session(Player),
    Over,
}

fn part(q: &J) -> Part {
    match q.at("op").str() {
        "session" => Part::Session(Player::new(&q.at("steps").arr()[0])),
        _ => Part::Steps(crate::machine(q)),
    }
}

/// The turns say whose step is next; what is left over is done in order.
fn in_turns(q: &J) -> J {
    let reqs = q.at("reqs").arr();
    let got = runtime().block_on(async {
        let mut parts: Vec<Part> = reqs.iter().map(part).collect();
        let mut got: Vec<Vec<J>> = vec![vec![]; reqs.len()];
        let named = q.at("turns").arr().iter().map(|t| t.int() as usize);
        let rest = (0..reqs.len())
            .flat_map(|i| std::iter::repeat(i).take(reqs[i].at("steps").arr().len()));
        for i in named.chain(rest) {
            let steps = reqs[i].at("steps").arr();
            let k = got[i].len();
            if k == steps.len() {
                continue;
            }
            let (r, over) = match &mut parts[i] {
                Part::Over => continue,
                Part::Steps(m) => match guard(|| m(&steps[k])) {
                    Some(r) => (r, false),
                    None => (panicked(), true),
                },
                Part::Session(p) => {
                    let r = p.play(&steps[k]).await;
                    (r, !p.alive())
                }
            };
            got[i].push(r);
            if over || k + 1 == steps.len() {
                parts[i] = Part::Over;
            }
        }
        got
    });
    silence();
    J::A(got.into_iter().map(J::A).collect())
}

/// Over and over for a while: a run that is not like the first if there is one, or else the first.
fn again(q: &J) -> J {
    let first = crate::run(q);
    let since = std::time::Instant::now();
    for k in 0..20_000 {
        if k > 1 && since.elapsed() > std::time::Duration::from_millis(25) {
            break;
        }
        let other = crate::run(q);
        if other != first {
            return other;
        }
    }
    first
}

pub fn among(q: &J) -> J {
    let run = if q.at("mode").str() == "storm" { again } else { crate::run };
    match q.at("mode").str() {
        "turns" => in_turns(q),
        _ => {
            let reqs = q.at("reqs").arr();
            let all = reqs
                .iter()
                .map(|r| Box::new(move || run(r)) as Box<dyn FnOnce() -> J + Send>)
                .collect();
            J::A(together(all).into_iter().map(|r| r.unwrap_or_else(panicked)).collect())
        }
    }
}
