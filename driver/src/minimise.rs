//! Shrinks a failing case while the same judge keeps failing.
use crate::case::{Case, Step};
use crate::doc::{Def, Doc, HeaderLine, Sel};
use crate::project::{Entry, Project};
use crate::props::{self, Viol};
use crate::sim::Lab;
use std::time::{Duration, Instant};

pub struct Shrinker<'a> {
    pub lab: &'a mut Lab,
    pub tag: String,
    pub deadline: Instant,
    pub evals: u32,
    pub max_evals: u32,
    /// The runs of the original have the arguments of the project they see.
    pub keep_args: bool,
}

/// Whether every run has the arguments of the project it sees, but for the number of threads.
fn args_fit(c: &Case) -> bool {
    let bare = |a: &[String]| {
        let mut v: Vec<String> = Vec::new();
        let mut it = a.iter();
        while let Some(x) = it.next() {
            if x == "--num-threads" {
                it.next();
            } else if !x.starts_with("--num-threads=") {
                v.push(x.clone());
            }
        }
        v
    };
    let mut cur = &c.proj;
    for s in &c.steps {
        match s {
            Step::Edit { proj, .. } => cur = proj,
            Step::Run { args, .. } if bare(args) != bare(&cur.args) => return false,
            _ => {}
        }
    }
    true
}

pub fn check(case: &mut Case, lab: &mut Lab) -> (Result<(), Viol>, Vec<crate::case::Obs>) {
    let obs = case.execute(lab);
    let v = props::judge(&case.prop, &obs);
    (v, obs)
}

impl<'a> Shrinker<'a> {
    fn fails(&mut self, c: &Case) -> bool {
        if self.evals >= self.max_evals || Instant::now() > self.deadline {
            return false;
        }
        self.evals += 1;
        let mut c = c.clone();
        let tag = self.tag.clone();
        let lab = &mut *self.lab;
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(&mut c, lab).0)) {
            Ok(Err(v)) => v.tag == tag,
            _ => false,
        }
    }
    fn attempt(&mut self, best: &mut Case, f: impl FnOnce(&mut Case)) -> bool {
        let mut c = best.clone();
        f(&mut c);
        if c != *best && (!self.keep_args || args_fit(&c)) && self.fails(&c) {
            *best = c;
            true
        } else {
            false
        }
    }
}

fn each_project(c: &mut Case, mut f: impl FnMut(&mut Project)) {
    f(&mut c.proj);
    for s in &mut c.steps {
        if let Step::Edit { proj, .. } = s {
            f(proj);
        }
    }
}
fn each_doc(c: &mut Case, path: &str, old: &Doc, f: impl Fn(&mut Doc)) {
    each_project(c, |p| {
        if let Some(Entry::Doc(d)) = p.entries.get_mut(path) {
            if d == old {
                f(d);
                d.render();
            }
        }
    });
}
fn paths(sel: &[Sel], pre: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    for (i, s) in sel.iter().enumerate() {
        pre.push(i);
        out.push(pre.clone());
        match s {
            Sel::Field { sel, .. } | Sel::Inline { sel, .. } => paths(sel, pre, out),
            _ => {}
        }
        pre.pop();
    }
}
fn remove_sel(sel: &mut Vec<Sel>, p: &[usize]) {
    if p.len() == 1 {
        if sel.len() > 1 && p[0] < sel.len() {
            sel.remove(p[0]);
        }
        return;
    }
    if let Some(Sel::Field { sel, .. }) | Some(Sel::Inline { sel, .. }) = sel.get_mut(p[0]) {
        remove_sel(sel, &p[1..]);
    }
}
/// How many trailing steps give a history the shape its judge expects.
fn fixed_tail(prop: &str) -> Option<usize> {
    match prop {
        "C07" => Some(3),
        "C20" => Some(4),
        "C27" => Some(3),
        "C10" => Some(1),
        _ => None,
    }
}

pub fn minimise(start: &Case, tag: &str, lab: &mut Lab, budget: Duration) -> Case {
    let mut s = Shrinker { lab, tag: tag.into(), deadline: Instant::now() + budget, evals: 0, max_evals: 1500, keep_args: args_fit(start) };
    let mut best = start.clone();
    // Steps.
    if let Some(tail) = fixed_tail(&best.prop) {
        let mut i = 0;
        while i + tail < best.steps.len() {
            if !s.attempt(&mut best, |c| {
                c.steps.remove(i);
            }) {
                i += 1;
            }
        }
    }
    // Who runs at the same time, and how they take turns.
    if let Some(at) = best.steps.iter().position(|s| matches!(s, Step::Overlap { .. })) {
        let Step::Overlap { n, .. } = best.steps[at].clone() else { unreachable!() };
        for w in (0..n).rev() {
            s.attempt(&mut best, |c| {
                let runs: Vec<usize> = (at + 1..c.steps.len()).filter(|i| matches!(c.steps[*i], Step::Run { .. })).collect();
                if let Step::Overlap { n, grants } = &mut c.steps[at] {
                    if *n < 3 {
                        return;
                    }
                    *n -= 1;
                    grants.retain(|g| g.0 != w);
                    grants.iter_mut().for_each(|g| g.0 -= (g.0 > w) as u8);
                }
                if let Some(i) = runs.get(w as usize) {
                    c.steps.remove(*i);
                }
            });
        }
        let set = |c: &mut Case, g: Vec<(u8, u32)>| {
            if let Step::Overlap { grants, .. } = &mut c.steps[at] {
                *grants = g;
            }
        };
        let Step::Overlap { grants, .. } = best.steps[at].clone() else { unreachable!() };
        let mut cur: Vec<(u8, u32)> = Vec::new();
        for g in grants {
            match cur.last_mut() {
                Some(l) if l.0 == g.0 => l.1 = l.1.saturating_add(g.1),
                _ => cur.push(g),
            }
        }
        s.attempt(&mut best, |c| set(c, cur.clone()));
        let half = Instant::now() + s.deadline.saturating_duration_since(Instant::now()) / 2;
        let mut chunk = cur.len().max(1);
        loop {
            let mut k = 0;
            while k < cur.len() {
                let mut d = cur.clone();
                d.drain(k..(k + chunk).min(d.len()));
                if s.attempt(&mut best, |c| set(c, d.clone())) {
                    cur = d;
                } else {
                    k += chunk;
                }
            }
            if chunk == 1 || Instant::now() > half {
                break;
            }
            chunk /= 2;
        }
    }
    if best.prop == "C03" && best.steps.len() > 3 {
        s.attempt(&mut best, |c| c.steps.truncate(3));
        if best.steps.len() > 3 {
            s.attempt(&mut best, |c| {
                c.steps.drain(1..3);
            });
        }
    }
    // Files, in halves first.
    let mut names: Vec<String> = Vec::new();
    each_project(&mut best.clone(), |p| names.extend(p.entries.keys().cloned()));
    names.sort();
    names.dedup();
    let mut chunk = (names.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i < names.len() {
            let part: Vec<String> = names[i..(i + chunk).min(names.len())].to_vec();
            let gone = s.attempt(&mut best, |c| {
                each_project(c, |p| {
                    p.entries.retain(|k, _| !part.contains(k));
                })
            });
            if gone {
                names.drain(i..(i + chunk).min(names.len()));
            } else {
                i += chunk;
            }
        }
        if chunk == 1 {
            break;
        }
        chunk /= 2;
    }
    // Documents.
    for n in &names {
        let Some(Entry::Doc(d)) = best.proj.entries.get(n).cloned() else { continue };
        let mut cur = d;
        for k in (0..cur.header.len()).rev() {
            let old = cur.clone();
            if s.attempt(&mut best, |c| each_doc(c, n, &old, |d| drop(d.header.remove(k)))) {
                cur.header.remove(k);
                cur.render();
            }
        }
        let old = cur.clone();
        if !old.trailer.is_empty() && s.attempt(&mut best, |c| each_doc(c, n, &old, |d| d.trailer.clear())) {
            cur.trailer.clear();
            cur.render();
        }
        if let Def::Op { vars, .. } = &cur.def {
            for k in (0..vars.len()).rev() {
                let old = cur.clone();
                let cut = |d: &mut Doc| {
                    if let Def::Op { vars, .. } = &mut d.def {
                        vars.remove(k);
                    }
                };
                if s.attempt(&mut best, |c| each_doc(c, n, &old, cut)) {
                    cut(&mut cur);
                    cur.render();
                    break;
                }
            }
        }
        let mut ps = Vec::new();
        paths(cur.sel(), &mut vec![], &mut ps);
        for p in ps.into_iter().rev() {
            let old = cur.clone();
            let mut new = old.clone();
            remove_sel(new.sel_mut(), &p);
            if new == old {
                continue;
            }
            if s.attempt(&mut best, |c| each_doc(c, n, &old, |d| remove_sel(d.sel_mut(), &p))) {
                cur = new;
                cur.render();
            }
        }
        let _ = HeaderLine::Text(String::new());
    }
    // Faults and quirks, then threads.
    for i in 0..best.steps.len() {
        let Step::Run { env, args } = best.steps[i].clone() else { continue };
        for k in (0..env.rules.len()).rev() {
            s.attempt(&mut best, |c| {
                if let Step::Run { env, .. } = &mut c.steps[i] {
                    if k < env.rules.len() {
                        env.rules.remove(k);
                    }
                }
            });
        }
        type Knob = fn(&mut crate::sim::Env);
        let knobs: [Knob; 15] = [
            |e| e.spurious = 0,
            |e| e.oversleep = 0,
            |e| e.clock_jump_ns = 0,
            |e| e.short_read = 0,
            |e| e.short_write = 0,
            |e| e.eintr = 0,
            |e| e.dt_unknown = 0,
            |e| e.dir_mode = 0,
            |e| e.hash_seed = 0,
            |e| e.ncpu = 4,
            |e| e.alloc_fail = 0,
            |e| {
                e.spawn_fail = 0;
                e.spawn_fail_all = false
            },
            |e| e.crash_step = 0,
            |e| e.tty = false,
            |e| e.vars.clear(),
        ];
        for k in knobs {
            s.attempt(&mut best, |c| {
                if let Step::Run { env, .. } = &mut c.steps[i] {
                    k(env);
                }
            });
        }
        if let Some(p) = args.iter().position(|a| a == "--num-threads").filter(|_| best.prop != "C19") {
            for n in ["1", "2"] {
                let done = s.attempt(&mut best, |c| {
                    if let Step::Run { args, .. } = &mut c.steps[i] {
                        args[p + 1] = n.into();
                    }
                });
                if done {
                    break;
                }
            }
        }
        s.attempt(&mut best, |c| {
            if let Step::Run { env, .. } = &mut c.steps[i] {
                *env = crate::sim::Env { max_steps: env.max_steps, rules: env.rules.clone(), tty: env.tty, vars: env.vars.clone(), ..crate::sim::Env::calm() };
            }
        });
    }
    // The schedule: as deviations from the quiet one, then as few of them as possible.
    for _ in 0..best.steps.len() {
        s.lab.log_devs = true;
        let obs = best.clone().execute(s.lab);
        s.lab.log_devs = false;
        let mut changed = false;
        let mut j = 0;
        for i in 0..best.steps.len() {
            if let Step::Run { env, .. } = &best.steps[i] {
                let devs = obs[j].run.devs.clone();
                j += 1;
                if env.mode != 0 {
                    changed |= s.attempt(&mut best, |c| {
                        if let Step::Run { env, .. } = &mut c.steps[i] {
                            env.mode = 0;
                            env.devs = devs;
                        }
                    });
                }
            }
        }
        if !changed {
            break;
        }
    }
    for i in 0..best.steps.len() {
        let Step::Run { env, .. } = best.steps[i].clone() else { continue };
        if env.devs.is_empty() {
            continue;
        }
        let mut devs = env.devs.clone();
        let set = |c: &mut Case, d: Vec<(u64, i32)>| {
            if let Step::Run { env, .. } = &mut c.steps[i] {
                env.devs = d;
            }
        };
        if s.attempt(&mut best, |c| set(c, vec![])) {
            continue;
        }
        let mut chunk = (devs.len() / 2).max(1);
        loop {
            let mut k = 0;
            while k < devs.len() {
                let mut d = devs.clone();
                d.drain(k..(k + chunk).min(devs.len()));
                if s.attempt(&mut best, |c| set(c, d.clone())) {
                    devs = d;
                } else {
                    k += chunk;
                }
            }
            if chunk == 1 || Instant::now() > s.deadline {
                break;
            }
            chunk /= 2;
        }
    }
    best
}
