//! C01 C02 C03 C04: what a matcher answers.
use mc::engine::{self, Check, Tier};
use mc::space::{core, Aspect};

fn build(p: &str, tier: Tier) -> Option<Check> {
    let (aspect, rule) = match p {
        "C01" => (Aspect::Sound, "two executions differ when the winning pattern, the reported values or the number of matching patterns differ"),
        "C02" => (Aspect::Complete, "two executions differ when the winning pattern, the reported values or the number of matching patterns differ; only messages that some pattern matches are asked"),
        "C03" => (Aspect::Precedence, "two executions differ when the winning pattern, the reported values or the number of matching patterns differ; only messages that two or more patterns match are asked"),
        "C04" => (Aspect::Same, "two executions differ when the winning pattern, the reported values or the number of matching patterns differ"),
        _ => return None,
    };
    Some(Check {
        property: p.to_owned(),
        families: core(aspect, tier),
        rule: rule.to_owned(),
        assumptions: vec![
            "patterns, alphabets, message lengths and sequence lengths are bounded as listed per family".to_owned(),
            "literals are non-empty (except in api-pairs) and patterns have at least one token".to_owned(),
        ],
    })
}

fn main() {
    engine::main(build)
}
