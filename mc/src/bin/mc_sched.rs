//! C28: operations do not notice what runs in between or beside them.

use mc::engine::{self, Check, Tier};
use mc::{nested, threads};

fn build(p: &str, tier: Tier) -> Option<Check> {
    if p != "C28" {
        return None;
    }
    let quick = tier == Tier::Quick;
    let all: Vec<usize> = (0..threads::OPS.len()).collect();
    let families = vec![
        threads::everywhere(!quick),
        threads::once(if quick { vec![0, 1, 13] } else { (0..8).chain(std::iter::once(13)).collect() }, if quick { vec![0, 4] } else { all }, if quick { 1 } else { 2 }, 3, if quick { 8 } else { 16 }),
        threads::processes(false, !quick, if quick { 1 } else { 2 }),
        threads::processes(true, !quick, if quick { 1 } else { 2 }),
        threads::relay(!quick, if quick { 3 } else { 4 }),
        nested::callbacks(if quick { 2 } else { 4 }),
        // last: the log level stays
        nested::log_callbacks(if quick { 2 } else { 3 }, true),
    ];
    Some(Check {
        property: p.to_owned(),
        families,
        rule: "two executions differ when the operation interrupted, the point of the interruption or the interrupting operation differ".to_owned(),
        assumptions: vec![
            "threads are interleaved with one preemption (or the second operation whole before every instruction), sequentially consistent; instructions inside of the C library are no points of choice".to_owned(),
        ],
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 10 && args[1] == "--fresh" {
        threads::fresh_main(&args[2..]);
    }
    engine::main(build)
}
