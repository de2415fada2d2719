//! Development aid: the model against the library, without simulation. Not used by any check.
use crate::{ast::*, eval, mparse};
use jprt::Rng;
use serde_json_path::JsonPath;
use std::collections::HashMap;

pub fn run(from: u64, to: u64) {
    let (mut n, mut unk, mut mut_ok, mut bad, mut rej) = (0, 0, 0, 0, 0);
    for seed in from..to {
        let mut r = Rng::new(seed);
        let v = Vocab::gen(&mut r);
        let mut doc = gen_doc(&v, &mut r);
        let mut q = if r.one_in(2) { gen_query(&v, &mut r) } else { gen_user_query(&v, &mut r) };
        let text = if v.style { render(&q, &mut Style(Some(&mut r))) } else { render(&q, &mut Style(None)) };
        let mut text = text;
        if r.one_in(2) {
            let (d, t) = crate::themes::theme(&mut r, 40);
            for t in &t {
                if JsonPath::parse(t).is_ok() != mparse::parse(t).is_ok() && !matches!(mparse::parse(t), Err(mparse::No::Unsure)) {
                    println!("{seed}: parsers differ on {t:?}");
                }
            }
            let mut t = crate::themes::specs(t);
            if !t.is_empty() {
                doc = d.into_iter().next().unwrap();
                let x = t.swap_remove(r.below(t.len()));
                text = x.text;
                q = x.ast.unwrap();
                if eval::cost(&q, &doc) > 300_000 {
                    continue;
                }
            }
        }
        match mparse::parse(&text) {
            Ok(m) => {
                let (a, b) = (eval::eval(&m, &doc), eval::eval(&q, &doc));
                if a.ok() != b.ok() {
                    println!("{seed}: model parser differs from ast on {text:?}");
                }
            }
            Err(e) => println!("{seed}: model parser {e:?} on {text:?}"),
        }
        let check = |q: &Query, text: &str, p: &JsonPath, bad: &mut i32| -> bool {
            let mut map = HashMap::new();
            eval::walk(&doc, &mut |l, v| {
                map.insert(v as *const _ as usize, l.clone());
            });
            match eval::eval(q, &doc) {
                Err(_) => false,
                Ok(want) => {
                    let got: Vec<_> = p.query(&doc).all().into_iter().map(|v| map[&(v as *const _ as usize)].clone()).collect();
                    let loc: Vec<_> = p.query_located(&doc).all().into_iter().map(|n| n.location().to_string()).collect();
                    let wloc: Vec<_> = want.iter().map(|l| eval::loc_text(l)).collect();
                    let ptr: Vec<_> = p.query_located(&doc).all().into_iter().map(|n| n.location().to_json_pointer()).collect();
                    let wptr: Vec<_> = want.iter().map(|l| eval::loc_pointer(l)).collect();
                    if got != want || loc != wloc || wptr != ptr {
                        *bad += 1;
                        println!("{seed}: {text:?}\n  on {doc}\n  want {wloc:?}\n  got {loc:?} {:?} {ptr:?}", got.iter().map(|l| eval::loc_text(l)).collect::<Vec<_>>());
                    }
                    true
                }
            }
        };
        match JsonPath::parse(&text) {
            Ok(p) => {
                n += 1;
                if !check(&q, &text, &p, &mut bad) {
                    unk += 1;
                }
            }
            Err(e) => {
                rej += 1;
                if rej < 20 {
                    println!("{seed}: refused {text:?}: {e}");
                }
            }
        }
        for _ in 0..4 {
            let t = mutate_text(&text, &mut r);
            if let Ok(p) = JsonPath::parse(&t) {
                match mparse::parse(&t) {
                    Ok(m) => {
                        mut_ok += 1;
                        check(&m, &t, &p, &mut bad);
                    }
                    Err(mparse::No::Unsure) => unk += 1,
                    Err(mparse::No::Bad) => {
                        bad += 1;
                        if bad < 30 {
                            println!("{seed}: library accepts {t:?}");
                        }
                    }
                }
            }
        }
        if bad > 30 {
            break;
        }
    }
    println!("n {n} unknown {unk} refused {rej} mutated-accepted {mut_ok} bad {bad}");
}
