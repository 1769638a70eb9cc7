//! C02: every byte string is stored and returned unaltered.
use super::{
    common::{blob, check_exact, Filter, Renew, World},
    Check,
};
use crate::{
    codec::hash64,
    explore::{Exec, Phase},
    model::{kw, show, show_iv, Assoc, Cred, Iv},
    ops,
    sim::{Bytes, Sys},
};

fn iv(pointer: bool, b: Bytes) -> Iv {
    if pointer {
        Iv::P(b)
    } else {
        Iv::D(b)
    }
}

fn one(k: &[u8], v: &Iv) -> Vec<Assoc> {
    vec![(k.to_vec(), v.clone())]
}

fn exact(exec: &mut Exec, w: &World, fx: &crate::sim::Fx, kws: &[Bytes]) -> Result<(), String> {
    check_exact(exec, fx, &w.cur(), &w.model, kws)
}

/// Add values in the same call or one by one, delete one, add it back, compact with a filter.
fn life(exec: &mut Exec, w: &mut World, values: &[Iv], one_call: bool) -> Result<(), String> {
    let fx = w.sys.client();
    let k = kw("k");
    if one_call {
        let all = values.iter().map(|v| (k.clone(), v.clone())).collect::<Vec<_>>();
        w.add(&fx, &all)?;
    } else {
        for v in values {
            w.add(&fx, &one(&k, v))?;
        }
    }
    exact(exec, w, &fx, &[k.clone()])?;
    // Filtering one leaves the others.
    for v in values.iter().take(2) {
        if let Iv::D(x) = v {
            let fork = w.model.clone();
            let snap = w.sys.snap();
            let creds = w.creds.clone();
            w.compact(&fx, Renew::Label, 1.0, &Filter::Drop([x.clone()].into()))?;
            exact(exec, w, &fx, &[k.clone()])?;
            w.sys.restore(&snap);
            w.model = fork;
            w.creds = creds;
        }
    }
    w.del(&fx, &one(&k, &values[0]))?;
    exact(exec, w, &fx, &[k.clone()])?;
    w.add(&fx, &one(&k, &values[0]))?;
    w.compact(&fx, Renew::Both, 1.0, &Filter::KeepAll)?;
    exact(exec, w, &fx, &[k])?;
    exec.transitions += values.len() as u64 + 4;
    exec.state(w.digest());
    Ok(())
}

/// Strings that a sloppy encoding would confuse.
fn family() -> Vec<Bytes> {
    let mut f: Vec<Bytes> = [
        "", "a", "b", "ab", "ba", "aa", "l", "w", "la", "wa", "ll", "lw", "wl", "a ", " a", "A",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    f.push(vec![0]);
    f.push(vec![0, 0]);
    f.push(vec![b'a', 0]);
    f.push(vec![0, b'a']);
    f.push(vec![255]);
    f.push(vec![b'a', 255]);
    f.push(vec![0xC3, 0x28]);
    f.push(vec![0; 15]);
    f.push(vec![0; 16]);
    f.push(vec![b'l'; 15]);
    f.push(vec![b'l'; 16]);
    f.push(blob(31, 0));
    f.push([blob(31, 0), vec![0]].concat());
    f.push(blob(32, 0));
    f.push(blob(79, 0));
    f.push(blob(80, 0));
    f
}

pub fn check(thorough: bool) -> Check {
    let mut phases = Vec::new();
    {
        let top = if thorough { 4200 } else { 1400 };
        phases.push(Phase::new(
            "lengths",
            format!("one value of each length 0..{top}, data or pointer, after 0..5 short values"),
            move |exec| {
                let n = exec.choose(top);
                let pointer = exec.flag();
                let before = exec.choose(if n < 200 { 5 } else { 2 });
                let one_call = exec.flag();
                exec.say(|| format!("length {n} pointer {pointer} before {before} one call {one_call}"));
                let mut w = World::new(&["k"]);
                let mut values = vec![iv(pointer, blob(n, 7))];
                for i in 0..before {
                    values.push(Iv::D(format!("short {i}").into_bytes()));
                }
                life(exec, &mut w, &values, one_call)
            },
        ));
    }
    {
        let top = if thorough { 130 } else { 66 };
        phases.push(Phase::new(
            "length-pairs",
            format!("two values of all lengths (0..{top})^2 with the same first bytes, both kinds"),
            move |exec| {
                let (n, m) = (exec.choose(top), exec.choose(top));
                let kinds = exec.choose(if n == m { 2 } else { 4 });
                let one_call = exec.flag();
                exec.say(|| format!("lengths {n} {m} kinds {kinds} one call {one_call}"));
                let mut w = World::new(&["k"]);
                let x = iv(kinds & 1 == 1, blob(n, 7));
                let y = iv(if n == m { kinds & 1 == 0 } else { kinds & 2 == 2 }, blob(m, 7));
                life(exec, &mut w, &[x, y], one_call)
            },
        ));
    }
    {
        let depth = if thorough { 4 } else { 3 };
        let letters = ["\0", "a", "A", " ", "\n", "é", "e\u{301}", "\u{feff}", "%", "\u{fffd}", "\u{10ffff}"];
        phases.push(Phase::new(
            "texts",
            format!(
                "all texts of up to {depth} of {} characters (NUL, space, line feed, combining, byte order mark...) as \
                 keyword, data, pointer and label, through 3 conversions to write x 3 to read x 5 ways to make the maps",
                letters.len()
            ),
            move |exec| {
                let n = exec.choose(depth + 1);
                let mut s = String::new();
                for _ in 0..n {
                    s.push_str(exec.pick(&letters));
                }
                let (w, r, m) = (exec.choose(ops::TEXT_WAYS), exec.choose(ops::TEXT_WAYS), exec.choose(ops::MAP_WAYS));
                exec.say(|| format!("{s:?} written through conversions {w} and {m}, read through {r}"));
                let sys = Sys::new();
                ops::text_life(&sys.client(), &s, w, r, m)?;
                exec.transitions += 4;
                exec.validated += 4;
                exec.state(hash64(&s));
                Ok(())
            },
        ));
    }
    {
        let lens = vec![0usize, 1, 13, 14, 15, 16, 30, 31, 32, 47, 62, 63, 64, 78, 79, 80, 95];
        phases.push(Phase::new(
            "length-triples",
            "three values of lengths around the block and link boundaries",
            move |exec| {
                let (a, b, c) = (*exec.pick(&lens), *exec.pick(&lens), *exec.pick(&lens));
                let one_call = exec.flag();
                exec.say(|| format!("lengths {a} {b} {c} one call {one_call}"));
                let mut w = World::new(&["k"]);
                let v = [Iv::D(blob(a, 1)), Iv::D(blob(b, 2)), Iv::D(blob(c, 3))];
                life(exec, &mut w, &v, one_call)
            },
        ));
    }
    phases.push(Phase::new(
        "bytes",
        "every byte value filling a value / its first byte / its last byte, a keyword, a label, x 8 \
         lengths",
        move |exec| {
            let b = exec.choose(256) as u8;
            let n = *exec.pick(&[1usize, 2, 14, 15, 16, 17, 33, 80]);
            let place = exec.choose(3);
            exec.say(|| format!("byte {b} length {n} place {place}"));
            let mut v = blob(n, 1);
            match place {
                0 => v = vec![b; n],
                1 => v[0] = b,
                _ => v[n - 1] = b,
            }
            let mut w = World::new(&["k"]);
            life(exec, &mut w, &[Iv::D(v.clone()), Iv::P(v.clone())], true)?;
            // As keyword and label.
            let mut w = World::new(&[]);
            w.universe.insert(v.clone());
            w.universe.insert(kw("k"));
            w.creds[0].label = v.clone();
            let fx = w.sys.client();
            w.add(&fx, &[(v.clone(), Iv::D(v.clone())), (kw("k"), Iv::P(v.clone()))])?;
            exact(exec, &w, &fx, &[v.clone(), kw("k")])?;
            w.del(&fx, &one(&kw("k"), &Iv::P(v.clone())))?;
            exact(exec, &w, &fx, &[v, kw("k")])
        },
    ));
    {
        let f = family();
        phases.push(Phase::new(
            "confusable-values",
            format!("all ordered pairs of {} data and pointers", 2 * f.len()),
            move |exec| {
                let x = iv(exec.flag(), exec.pick(&f).clone());
                let y = iv(exec.flag(), exec.pick(&f).clone());
                exec.say(|| format!("{} {}", show_iv(&x), show_iv(&y)));
                let mut w = World::new(&["k"]);
                life(exec, &mut w, &[x.clone(), y.clone()], true)?;
                // Deleting one never added leaves the other.
                let mut w = World::new(&["k"]);
                let fx = w.sys.client();
                w.add(&fx, &one(b"k", &x))?;
                w.del(&fx, &one(b"k", &y))?;
                exact(exec, &w, &fx, &[kw("k")])?;
                // Adding and deleting in calls that follow each other, one keyword each.
                let mut w = World::new(&["k", "m"]);
                let fx = w.sys.client();
                w.add(&fx, &[(kw("k"), x.clone()), (kw("m"), x.clone())])?;
                w.add(&fx, &one(b"m", &y))?;
                w.del(&fx, &one(b"m", &x))?;
                exact(exec, &w, &fx, &[kw("k"), kw("m")])
            },
        ));
    }
    {
        let f = family();
        phases.push(Phase::new(
            "confusable-keywords",
            format!("all ordered pairs of {} keywords, and of labels", f.len()),
            move |exec| {
                let (x, y) = (exec.pick(&f).clone(), exec.pick(&f).clone());
                exec.say(|| format!("{} {}", show(&x), show(&y)));
                let mut w = World::new(&[]);
                w.universe.extend([x.clone(), y.clone()]);
                let fx = w.sys.client();
                let (vx, vy) = (Iv::D(b"value of x".to_vec()), Iv::D(b"value of y".to_vec()));
                w.add(&fx, &one(&x, &vx))?;
                exact(exec, &w, &fx, &[x.clone(), y.clone()])?;
                w.add(&fx, &one(&y, &vy))?;
                w.del(&fx, &one(&y, &vx))?;
                exact(exec, &w, &fx, &[x.clone(), y.clone()])?;
                w.compact(&fx, Renew::Label, 1.0, &Filter::KeepAll)?;
                exact(exec, &w, &fx, &[x.clone(), y.clone()])?;
                w.add(&fx, &one(&x, &Iv::P(y.clone())))?;
                exact(exec, &w, &fx, &[x.clone(), y.clone()])?;
                // Same keyword, two labels; and a keyword and a label exchanged.
                if x != y {
                    let sys = crate::sim::Sys::new();
                    let fx = sys.client();
                    let (c1, c2) = (
                        Cred { label: x.clone(), ..Cred::new(0, "") },
                        Cred { label: y.clone(), ..Cred::new(0, "") },
                    );
                    let mut m1 = crate::model::Model::default();
                    let mut m2 = crate::model::Model::default();
                    let a1 = [(y.clone(), vx.clone()), (kw("k"), vx.clone())];
                    let a2 = [(x.clone(), vy.clone()), (kw("k"), vy.clone())];
                    crate::sim::go(crate::ops::add(&fx, &c1, &a1)).map_err(|e| e.to_string())?;
                    crate::sim::go(crate::ops::add(&fx, &c2, &a2)).map_err(|e| e.to_string())?;
                    m1.add(&a1);
                    m2.add(&a2);
                    let all = [x.clone(), y.clone(), kw("k")];
                    check_exact(exec, &fx, &c1, &m1, &all)?;
                    check_exact(exec, &fx, &c2, &m2, &all)?;
                }
                exec.transitions += 6;
                exec.state(w.digest());
                Ok(())
            },
        ));
    }
    {
        let top = if thorough { 700 } else { 300 };
        phases.push(Phase::new(
            "keyword-and-label-lengths",
            format!("keywords and labels of every length 0..{top}, and prefixes of each other"),
            move |exec| {
                let n = exec.choose(top);
                let which = exec.choose(3);
                exec.say(|| format!("length {n}, {}", ["keyword", "label", "both"][which]));
                let long = blob(n, 3);
                let shorter = blob(n.saturating_sub(1), 3);
                let mut w = World::new(&["k"]);
                let k = if which != 1 { long.clone() } else { kw("k") };
                let k2 = if which != 1 { shorter } else { kw("k2") };
                if which != 0 {
                    w.creds[0].label = long;
                }
                w.universe.extend([k.clone(), k2.clone()]);
                let fx = w.sys.client();
                w.add(&fx, &one(&k, &Iv::D(b"one".to_vec())))?;
                w.add(&fx, &one(&k2, &Iv::D(b"two".to_vec())))?;
                w.add(&fx, &one(b"pointer", &Iv::P(k.clone())))?;
                exact(exec, &w, &fx, &[k.clone(), k2.clone(), kw("pointer")])?;
                w.universe.insert(kw("pointer"));
                w.compact(&fx, Renew::Key, 1.0, &Filter::KeepAll)?;
                exact(exec, &w, &fx, &[k, k2, kw("pointer")])?;
                exec.transitions += 5;
                exec.state(w.digest());
                Ok(())
            },
        ));
    }
    {
        let top = if thorough { 420 } else { 200 };
        phases.push(Phase::new(
            "counts",
            format!("0..{top} values of 1 or 2 blocks / keywords / calls / all three"),
            move |exec| {
                let n = exec.choose(top);
                let how = exec.choose(4);
                let len = *exec.pick(&[3usize, 20]);
                exec.say(|| format!("n {n} how {how} length {len}"));
                let value = |i: usize| Iv::D([format!("{i:04}").into_bytes(), blob(len, 1)].concat());
                let key = |i: usize| format!("keyword {i}").into_bytes();
                let mut w = World::new(&["k"]);
                let fx = w.sys.client();
                let mut kws = vec![kw("k")];
                match how {
                    0 => {
                        let a = (0..n).map(|i| (kw("k"), value(i))).collect::<Vec<_>>();
                        w.add(&fx, &a)?;
                    }
                    1 => {
                        for i in 0..n {
                            w.add(&fx, &one(b"k", &value(i)))?;
                        }
                    }
                    2 => {
                        kws.extend((0..n).map(key));
                        let a = (0..n).map(|i| (key(i), value(0))).collect::<Vec<_>>();
                        w.add(&fx, &a)?;
                    }
                    _ => {
                        kws.extend((0..n).map(key));
                        for c in 0..3 {
                            let a = (0..n)
                                .flat_map(|i| (0..1 + i % 4).map(move |j| (i, j)))
                                .map(|(i, j)| (key(i), value(i + 10 * c + j)))
                                .collect::<Vec<_>>();
                            w.add(&fx, &a)?;
                        }
                    }
                }
                w.universe.extend(kws.iter().cloned());
                exact(exec, &w, &fx, &kws)?;
                // Deleting every other one in one call leaves the others; and so does a compaction.
                let some = w
                    .model
                    .live
                    .iter()
                    .flat_map(|(k, s)| s.iter().map(move |v| (k.clone(), v.clone())))
                    .step_by(2)
                    .collect::<Vec<_>>();
                w.del(&fx, &some)?;
                exact(exec, &w, &fx, &kws)?;
                w.compact(&fx, Renew::Both, 1.0, &Filter::KeepAll)?;
                exact(exec, &w, &fx, &kws)?;
                exec.transitions += n as u64;
                exec.state(crate::codec::hash64(&(n, how, len)));
                Ok(())
            },
        ));
    }
    phases.push(
        Phase::new(
            "large",
            "values, keywords and labels of 4 KiB to 2 MiB (16 MiB thorough), -2 to +1 byte",
            move |exec| {
                let sizes = [
                    254 * 16, 255 * 16, 256 * 16, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 18, 1 << 20,
                    1 << 21, 1 << 24,
                ];
                let n = *exec.pick(&sizes[..if exec.thorough { 12 } else { 11 }]) - 2 + exec.choose(4);
                let which = exec.choose(3);
                exec.say(|| format!("length {n} which {which}"));
                let big = blob(n, 5);
                let mut w = World::new(&["k"]);
                let mut k = kw("k");
                let mut v = Iv::D(b"small".to_vec());
                match which {
                    0 => v = Iv::D(big),
                    1 => k = big,
                    _ => w.creds[0].label = big,
                }
                w.universe.insert(k.clone());
                let fx = w.sys.client();
                w.add(&fx, &one(&k, &v))?;
                w.add(&fx, &one(&k, &Iv::D(b"other".to_vec())))?;
                exact(exec, &w, &fx, &[k.clone()])?;
                w.del(&fx, &one(&k, &v))?;
                exact(exec, &w, &fx, &[k])?;
                exec.transitions += 3;
                exec.state(crate::codec::hash64(&(n, which)));
                Ok(())
            },
        )
        .cpu_limit(120),
    );
    Check {
        id: "C02",
        level: "model_checking",
        rule: "every combination of lengths, contents, kinds and numbers inside the bounds is added, \
               read back through the search callback and result, deleted, filtered and compacted",
        assumptions: vec!["values longer than the bounds behave as those inside"],
        phases,
    }
}
