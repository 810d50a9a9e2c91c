//! The properties: registry, command line, common drivers.

use crate::cfgs::{self, Cfg};
use crate::engine::*;
use crate::json::J;
use crate::lua::{self, Parsed};
use crate::space::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

pub mod accept;
pub mod basic;
pub mod command;
pub mod errors;
pub mod fault;
pub mod history;
pub mod layout;
pub mod literal;
pub mod options;
pub mod ranges;
pub mod shape;
pub mod stable;
pub mod tables;
pub mod tidy;
pub mod total;

pub static PROPS: &[&Prop] = &[&basic::C01, &basic::C02, &basic::C03, &accept::C04, &total::C05, &stable::C06, &stable::C07, &ranges::C08, &ranges::C09, &shape::C10, &shape::C11, &options::C12, &command::C13, &command::C14, &command::C15, &fault::C16, &history::C17, &literal::C18, &tidy::C19, &tables::C20, &tidy::C21, &layout::C22, &layout::C23, &layout::C24, &errors::C25, &layout::C26];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id).copied()
}

fn home() -> String {
    std::env::var("MC_HOME").unwrap_or_else(|_| "/verif".into())
}

/// Open findings of a property: (description, entry).
fn known(id: &str) -> Vec<(String, J)> {
    let text = std::fs::read_to_string(format!("{}/known_findings.json", home())).unwrap_or_default();
    match crate::json::parse(&text) {
        Ok(j) => j
            .get("findings")
            .map(|f| f.arr().to_vec())
            .unwrap_or_default()
            .into_iter()
            .filter(|f| f.get("property").map(|p| p.str() == id) == Some(true) && f.get("status").map(|p| p.str() == "open") == Some(true))
            .map(|f| (f.get("what").map(|w| w.str().to_string()).unwrap_or_default(), f))
            .collect(),
        Err(_) => vec![],
    }
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "replay" {
        let text = std::fs::read_to_string(&args[2]).expect("replay file");
        let j = crate::json::parse(&text).expect("replay file");
        let id = j.get("property").map(|p| p.str().to_string()).unwrap_or_default();
        let p = find(&id).expect("property");
        match Case::from_json(j.get("case").unwrap_or(&J::Null)) {
            Some(c) => match (p.judge)(&c) {
                Verdict::Fail(d) => {
                    println!("VIOLATION property={} replay={}\n  {}", id, args[2], d);
                    std::process::exit(1);
                }
                Verdict::Listed(d) => println!("KNOWN-FINDING: property={} {}", id, d),
                _ => println!("{}: no violation on this case", id),
            },
            None => {
                println!("the case is not a single formatting run; run the check again");
                std::process::exit(2);
            }
        }
        return;
    }
    let id = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let tier = args.get(2).map(|s| s.as_str()).unwrap_or("quick");
    let p = match find(id) {
        Some(p) => p,
        None => {
            eprintln!("usage: mc PROPERTY quick|thorough | mc replay FILE");
            std::process::exit(2)
        }
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let e = Engine::new(id, tier, seed, known(id));
    // on its own big stack
    let e2 = e.clone();
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            (p.explore)(&e2, p);
            e2.known_findings(&|j| match Case::from_json(j) {
                Some(c) => match (p.judge)(&c) {
                    Verdict::Fail(d) | Verdict::Listed(d) => Err(d),
                    _ => Ok(()),
                },
                None => crate::props::probe(p.id, j),
            });
            e2.finish_and_exit();
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| {
            eprintln!("the checker itself panicked");
            std::process::exit(3)
        });
}

/// Findings that are not a single formatting run.
pub fn probe(_id: &str, _j: &J) -> Result<(), String> {
    Ok(())
}

thread_local! {
    static MEMO: RefCell<Option<(String, Rc<Result<Parsed, String>>)>> = const { RefCell::new(None) };
}

/// The oracle's view of a source (strict Lua 5.3); remembers the last one.
pub fn parsed(src: &str) -> Rc<Result<Parsed, String>> {
    MEMO.with(|m| {
        let mut m = m.borrow_mut();
        if let Some((s, p)) = m.as_ref() {
            if s == src {
                return p.clone();
            }
        }
        let p = Rc::new(lua::parse(src, false));
        *m = Some((src.to_string(), p.clone()));
        p
    })
}

pub fn arcs(v: Vec<Cfg>) -> Vec<Arc<Cfg>> {
    v.into_iter().map(Arc::new).collect()
}

/// All ranges worth trying for a text: none, every pair of lines.
pub fn line_ranges(src: &str) -> Vec<Option<(usize, usize)>> {
    let n = src.matches('\n').count() + 1;
    let mut v = vec![];
    for a in 1..=n {
        for b in a..=n {
            v.push(Some((a, b)));
        }
    }
    v
}

/// Judge every source of the items under every configuration (whole-file runs).
pub fn sweep(e: &Arc<Engine>, p: &'static Prop, items: &[Item], cfgs: &[Arc<Cfg>]) {
    e.par(items.len(), |i, l| {
        items[i].each(&mut |src| {
            l.add("sources", 1);
            for c in cfgs {
                e.check(p, &Case::new(src, c), l);
            }
        });
    });
}

/// As `sweep`, with every range of lines.
pub fn sweep_ranges(e: &Arc<Engine>, p: &'static Prop, items: &[Item], cfgs: &[Arc<Cfg>], more: &[(usize, usize)]) {
    e.par(items.len(), |i, l| {
        items[i].each(&mut |src| {
            l.add("sources_with_ranges", 1);
            let mut rs = line_ranges(src);
            rs.extend(more.iter().map(|r| Some(*r)));
            for c in cfgs {
                for r in &rs {
                    e.check(p, &Case::new(src, c).with_range(*r), l);
                }
            }
        });
    });
}

pub fn sweep_texts(e: &Arc<Engine>, p: &'static Prop, texts: &[String], cfgs: &[Arc<Cfg>]) {
    e.par(texts.len(), |i, l| {
        l.add("sources", 1);
        for c in cfgs {
            e.check(p, &Case::new(&texts[i], c), l);
        }
    });
}

/// Sources with several top-level statements, for line ranges.
pub fn range_items(depth: usize) -> Vec<Item> {
    let mut v = vec![];
    v.extend(items(showcase(), Vary::Two));
    v.extend(items(all_lists(2..=3), Vary::Two));
    v.extend(progs(1, Vary::Layouts));
    v.extend(progs(0, Vary::Gap));
    v.extend(progs(0, Vary::GapNatural));
    if depth > 1 {
        v.extend(progs(1, Vary::GapNatural));
        v.extend(progs(2, Vary::Layouts));
    }
    v
}

/// Every documented option at every value of its domain, around every base configuration.
pub fn single_cfgs() -> Vec<Arc<Cfg>> {
    arcs(cfgs::dedup(cfgs::bases().iter().flat_map(|b| cfgs::singles(b)).collect()))
}

/// Programs of several statements in which most options have something to do.
pub const RICH: &[&str] = &[
    "a(b); --c\nlocal x, y = { 1, k = 'd'; [e] = f }, - g ^ 2\n\nwhile a do b() break end",
    "if a then --[[b]] c() d() elseif e then return f else g = h .. i end",
    "for i = 1, n, 2 do a[i] = b + c * d; f(i) goto l ::l:: end\nrepeat x = y --z\n until w",
    "function m.n:o(p, ...) local q = function() return p, {} end r(q){ s }:t'u' end",
    "do for k, v in pairs(t) do --[[ w ]] f(k, { v, g() }) end end return not a and b or c",
    "local function f(a) if a then return end while b do end x.y[z] = a end --e",
];

pub fn rich() -> Vec<String> {
    RICH.iter().map(|s| s.to_string()).collect()
}

/// Their tokens.
pub fn rich_tokens() -> Vec<Toks> {
    RICH.iter()
        .map(|s| {
            let p = lua::parse(s, true).expect("a program of the list is Lua");
            toks(&p.toks.iter().map(|t| t.text(s)).collect::<Vec<_>>().join(" "))
        })
        .collect()
}

/// Any two options around the bases, set to anything or left out.
pub fn two_options(bases: &[Cfg], keep: &dyn Fn(&Cfg) -> bool) -> Vec<Arc<Cfg>> {
    arcs(cfgs::dedup(bases.iter().flat_map(|b| cfgs::singles(b).into_iter().chain(cfgs::pairs(b))).filter(|c| keep(c)).collect()))
}
