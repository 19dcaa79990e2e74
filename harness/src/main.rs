#![allow(clippy::type_complexity)]
mod ast;
mod common;
mod construct;
mod engine;
mod json;
mod model;
mod props1;
mod props2;
mod tok;

use engine::*;

struct Entry {
    p: Prop,
    extra: Option<fn(&Opts) -> Extra>,
}

const MODEL: &str = "the reference interpreter (harness/src/model.rs) states PEG semantics, failure merging and recovery as documented";
const GENS: &str = "grammars have up to ~90 nodes over 2..4, now and then up to 16, distinct tokens, inputs up to ~600 tokens; one grammar in ten is wide: up to 15 children, sets of up to 24, bounds of up to 80, strategies of up to 30 steps; one in 160 has up to 115 children, sets of up to 99, bounds of up to 800, strategies of up to 150 steps; no left recursion, no repetition of nullable items, maximum >= minimum";

fn table() -> Vec<Entry> {
    macro_rules! e {
        ($id:literal, $q:expr, $t:expr, $f:path, $rule:literal, [$($a:expr),*]) => {
            Entry { p: Prop { id: $id, quick: $q, thorough: $t, run: $f, rule: $rule, assumptions: &[$($a),*] }, extra: None }
        };
        ($id:literal, $q:expr, $t:expr, $f:path, $rule:literal, [$($a:expr),*], $x:path) => {
            Entry { p: Prop { id: $id, quick: $q, thorough: $t, run: $f, rule: $rule, assumptions: &[$($a),*] }, extra: Some($x) }
        };
    }
    vec![
        e!("C01", 12_800_000, 240_000_000, props1::c01, "the parse consumes tokens in a derivation of at least 4 steps, or backtracks, or an alternative fails", [MODEL, GENS]),
        e!("C02", 8_000_000, 150_000_000, props1::c02, "at least one parser fails after progress inside it", [MODEL, GENS]),
        e!("C03", 12_800_000, 240_000_000, props1::c03, "the parse fails after progress, or with failed alternatives, or with merged expectations", [MODEL, GENS]),
        e!("C04", 6_400_000, 120_000_000, props1::c04, "a strategy or validation step recovered or ran, or the valid input consumed tokens under a grammar with strategies", [MODEL, GENS]),
        e!("C05", 9_600_000, 180_000_000, props1::c05, "at least one strategy ran", [MODEL, GENS]),
        e!("C06", 9_600_000, 180_000_000, props2::c06, "tokens are consumed, or the minimum is missed on at least two tokens", ["items and separators are choices of fixed strings of 1..3 tokens"], props2::c06_small),
        e!("C07", 3_200_000, 60_000_000, props2::c07, "at least two streaming steps", [GENS]),
        e!("C08", 1_920_000, 36_000_000, props2::c08, "more than one token had to be looked at; for the retention bound: the grammar makes progress over thousands of tokens", [MODEL, GENS, "retained tokens may be up to 8 times the window plus 256"]),
        e!("C09", 12_800_000, 240_000_000, props2::c09, "at least one position was saved and one restored on a nonempty input", ["saved positions are only used with the stream that made them; spans run forwards"]),
        e!("C10", 8_000_000, 150_000_000, props1::c10, "a location or span appears in the output or the errors", [MODEL, GENS]),
        e!("C11", 9_600_000, 180_000_000, props2::c11, "the scan moves over more than one token", ["delimiter tables with distinct left and distinct right delimiters"]),
        e!("C12", 6_400_000, 120_000_000, props2::c12, "pattern and input are nonempty, or tokens are consumed", ["characters from a pool of 9, patterns of up to 39"]),
        e!("C13", 8_000_000, 100_000_000, props1::c13, "the parse consumes tokens or takes more than 6 steps", [GENS]),
        e!("C14", 4_800_000, 90_000_000, props1::c14, "the parse reports errors", [MODEL, GENS]),
        e!("C15", 9_600_000, 180_000_000, props2::c15, "the result is not a plain success", []),
        e!("C16", 9_600_000, 180_000_000, props2::c16, "more than one expected token, or a known location", ["token texts contain no blanks or commas"]),
        e!("C17", 2_400_000, 24_000_000, props1::c17, "a strategy ran, or backtracking happened, or more than 20 steps", [MODEL, GENS, "termination: at most 2000 token operations per model step plus 2000000"], props1::c17_misuse),
        e!("C26", 800_000, 8_000_000, json::c26, "a text of more than 10 characters, or several lines of more than 20 characters in all", ["JSON, with or without trailing commas and line feeds, written in two ways"]),
        e!("C18", 1_280_000, 24_000_000, props1::c18, "at least two compared interleaved runs", [GENS]),
    ]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let id = get("--prop").expect("--prop ID");
    let env = |k: &str| std::env::var(k).ok();
    let tier = get("--tier").or(env("VERIF_TIER")).unwrap_or("quick".into());
    let o = Opts {
        seed: get("--seed").or(env("VERIF_SEED")).and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: tier == "thorough",
        cases: get("--cases").and_then(|s| s.parse().ok()),
        out_dir: get("--out").unwrap_or("/verif".into()),
        known_file: get("--known").unwrap_or("/verif/known_findings.txt".into()),
        replay: get("--replay"),
        threads: get("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8)),
        progress: get("--progress"),
    };
    let t = table();
    let Some(e) = t.iter().find(|e| e.p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    };
    if o.progress.is_none() && o.replay.is_none() {
        std::process::exit(supervise(&e.p, &o));
    }
    std::process::exit(run_prop(&e.p, &o, e.extra));
}
