//! A case is one simulated history over one project: files appear and change,
//! processes run, crash, lose unsynced data, and run again.
use crate::oracle::Files;
use crate::project::Project;
use crate::rng::Rng;
use crate::sim::{os, Env, Lab, Run};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// Start over with an empty scratch directory holding the current project.
    Fresh,
    /// The user's tree becomes this one; outputs of earlier runs stay.
    /// stamp 0: newer than everything, 1: same time as the last outputs, 2: older than everything.
    Edit { proj: Box<Project>, stamp: u8 },
    Run { args: Vec<String>, env: Env },
    /// Power loss: data the last run wrote and did not sync is lost or torn.
    Tear { seed: u64 },
    /// The next `n` runs happen at the same time. Each grant lets one of them access files that
    /// many times; edits between them happen just before the run that follows starts. After the
    /// last grant they take turns.
    Overlap { n: u8, grants: Vec<(u8, u32)> },
    /// Outputs of earlier runs are tampered with: by hand, a formatter, a merge.
    Spoil { seed: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub flavour: String,
    pub proj: Project,
    pub steps: Vec<Step>,
}

pub struct Obs {
    pub run: Run,
    pub before: Files,
    pub after: Files,
    pub proj: Project,
    pub env: Env,
    /// 1: one of several at the same time; 2: with edits between their starts.
    pub overlap: u8,
    pub args: Vec<String>,
}

fn stamp(lab: &Lab, rel: &str, t: i64) {
    use std::os::unix::ffi::OsStrExt;
    let p = lab.bx.join(os(rel));
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    let ts = [libc::timespec { tv_sec: t, tv_nsec: 0 }, libc::timespec { tv_sec: t, tv_nsec: 0 }];
    unsafe {
        libc::utimensat(libc::AT_FDCWD, c.as_ptr(), ts.as_ptr(), libc::AT_SYMLINK_NOFOLLOW);
    }
}

fn remove_path(p: &std::path::Path) {
    if let Ok(m) = std::fs::symlink_metadata(p) {
        if m.is_dir() {
            let _ = std::fs::remove_dir_all(p);
        } else {
            let _ = std::fs::remove_file(p);
        }
    }
}

/// The schema file is what the downloader fetches from a server with this schema.
pub const DOWNLOAD: &str = "@download";
pub const DOWNLOAD_FAILED: &str = "@failed: ";

fn downloaded(lab: &mut Lab, p: &mut Project, seed: u64) {
    if p.schema_raw.as_deref() == Some(DOWNLOAD) {
        p.schema_raw = Some(match lab.fetch(seed, &p.schema.to_json()) {
            Ok(t) => t,
            Err(e) => format!("{DOWNLOAD_FAILED}{e}"),
        });
    }
}

fn edit(lab: &mut Lab, cur: &mut Project, proj: &Project, mode: u8, now: i64, seed: u64) {
    let old = cur.files();
    let old_links: BTreeSet<String> = cur
        .entries
        .iter()
        .filter(|(_, e)| matches!(e, crate::project::Entry::Link(_)))
        .map(|(k, _)| k.clone())
        .collect();
    let mut next = proj.clone();
    downloaded(lab, &mut next, seed);
    let new = next.files();
    for l in old_links {
        remove_path(&lab.bx.join(os(&l)));
    }
    for f in old.keys() {
        if !new.contains_key(f) {
            remove_path(&lab.bx.join(os(f)));
        }
    }
    next.materialise(&lab.bx).expect("scratch files");
    for (f, t) in &new {
        if old.get(f) != Some(t) {
            let at = match mode {
                0 => now,
                1 => now - 100,
                _ => 1_500_000_000,
            };
            stamp(lab, f, at);
        }
    }
    *cur = next;
}

fn stamp_changed(lab: &Lab, before: &Files, after: &Files, runs: &[&Run], now: i64) {
    for (f, t) in after {
        if before.get(f) != Some(t) || runs.iter().any(|r| r.ops.iter().any(|o| o.cls == "openw" && &o.path == f)) {
            stamp(lab, f, now);
        }
    }
}

impl Case {
    /// Runs from step `i` on that overlap; returns the step after them.
    fn together(&self, mut i: usize, n: usize, grants: &[(u8, u32)], now: i64, cur: &mut Project, lab: &mut Lab, obs: &mut Vec<Obs>) -> usize {
        struct One<'a> {
            edits: Vec<(&'a Project, u8)>,
            args: &'a [String],
            env: &'a Env,
            state: State,
        }
        enum State {
            Before,
            Going(crate::sim::Proc, Files, Project),
            Done(Obs),
        }
        let first = lab.files();
        let mut all: Vec<One> = Vec::new();
        let mut edits = Vec::new();
        while all.len() < n && i < self.steps.len() {
            match &self.steps[i] {
                Step::Edit { proj, stamp } => edits.push((&**proj, *stamp)),
                Step::Run { args, env } => all.push(One { edits: std::mem::take(&mut edits), args, env, state: State::Before }),
                _ => break,
            }
            i += 1;
        }
        let mode = if all.iter().any(|o| !o.edits.is_empty()) { 2 } else { 1 };
        let go = |k: usize, count: u32, all: &mut Vec<One>, cur: &mut Project, lab: &mut Lab| {
            if let State::Before = all[k].state {
                for (p, m) in std::mem::take(&mut all[k].edits) {
                    edit(lab, cur, p, m, now, self.seed);
                }
                let before = lab.files();
                all[k].state = State::Going(lab.start(all[k].args, all[k].env, true), before, cur.clone());
            }
            let State::Going(p, ..) = &mut all[k].state else { return };
            if count == u32::MAX {
                p.give_up();
            } else if !p.ended() {
                p.grant(count);
            }
            if p.ended() {
                let State::Going(p, before, proj) = std::mem::replace(&mut all[k].state, State::Before) else { unreachable!() };
                let run = lab.finish(p);
                all[k].state = State::Done(Obs { run, before, after: lab.files(), proj, env: all[k].env.clone(), overlap: mode, args: all[k].args.to_vec() });
            }
        };
        for (k, c) in grants {
            if (*k as usize) < all.len() && *c > 0 {
                go(*k as usize, (*c).min(1 << 20), &mut all, cur, lab);
            }
        }
        // Fair from here on; those that can only wait for one another never end.
        let mut stuck = 0;
        let mut rounds = 0u64;
        while all.iter().any(|o| !matches!(o.state, State::Done(_))) {
            let mut moved = false;
            for k in 0..all.len() {
                if let State::Done(_) = all[k].state {
                    continue;
                }
                go(k, if stuck > 3 || rounds > 300_000 { u32::MAX } else { 8 }, &mut all, cur, lab);
                moved |= !matches!(&all[k].state, State::Going(p, ..) if p.waiting);
            }
            stuck = if moved { 0 } else { stuck + 1 };
            rounds += 1;
        }
        let after = lab.files();
        let done: Vec<Obs> = all
            .into_iter()
            .map(|o| match o.state {
                State::Done(o) => o,
                _ => unreachable!(),
            })
            .collect();
        stamp_changed(lab, &first, &after, &done.iter().map(|o| &o.run).collect::<Vec<_>>(), now);
        obs.extend(done);
        i
    }
    pub fn execute(&mut self, lab: &mut Lab) -> Vec<Obs> {
        let mut cur = self.proj.clone();
        let mut obs: Vec<Obs> = Vec::new();
        let mut now: i64 = 1_600_000_000;
        lab.clear();
        let fresh = |lab: &mut Lab, cur: &mut Project, now: i64| {
            lab.clear();
            cur.materialise(&lab.bx).expect("scratch files");
            for f in lab.files().keys() {
                stamp(lab, f, now);
            }
        };
        fresh(lab, &mut cur, now);
        // Positions are filled in by rendering.
        self.proj = cur.clone();
        let mut i = 0;
        lab.seq = 0;
        while i < self.steps.len() {
            let st = &self.steps[i];
            i += 1;
            now += 100;
            match st {
                Step::Overlap { n, grants } => i = self.together(i, *n as usize, grants, now, &mut cur, lab, &mut obs),
                Step::Fresh => fresh(lab, &mut cur, now),
                Step::Edit { proj, stamp: mode } => edit(lab, &mut cur, proj, *mode, now, self.seed),
                Step::Tear { seed } => {
                    let Some(o) = obs.last() else { continue };
                    let mut r = Rng::new(*seed);
                    let mut dirty: BTreeSet<String> = BTreeSet::new();
                    for op in &o.run.ops {
                        match op.cls.as_str() {
                            "openw" | "write" | "rename" | "trunc" => {
                                dirty.insert(op.path.clone());
                            }
                            "fsync" => {
                                dirty.remove(&op.path);
                            }
                            _ => {}
                        }
                    }
                    for f in dirty {
                        let p = lab.bx.join(os(&f));
                        let Some(cur) = o.after.get(&f) else { continue };
                        let n = cur.len();
                        match r.below(6) {
                            0 => {}
                            1 => match o.before.get(&f) {
                                Some(b) => {
                                    let _ = std::fs::write(&p, b);
                                }
                                None => remove_path(&p),
                            },
                            2 => {
                                let _ = std::fs::write(&p, &cur[..r.below(n + 1)]);
                            }
                            3 => {
                                let _ = std::fs::write(&p, b"");
                            }
                            4 => {
                                let mut c = cur.clone();
                                let k = r.below(n + 1);
                                c[k..].iter_mut().for_each(|b| *b = 0);
                                let _ = std::fs::write(&p, c);
                            }
                            _ => {
                                // Same length as before, old tail under a new head.
                                let mut c = o.before.get(&f).cloned().unwrap_or_default();
                                let k = r.below(n.min(c.len()) + 1);
                                c[..k].copy_from_slice(&cur[..k]);
                                let _ = std::fs::write(&p, c);
                            }
                        }
                        stamp(lab, &f, now - 100);
                    }
                }
                Step::Spoil { seed } => {
                    let mut r = Rng::new(*seed);
                    let mine = cur.files();
                    let all = lab.files();
                    let outs: Vec<&String> = all.keys().filter(|f| !mine.contains_key(*f) && (f.ends_with(".d.ts") || f.ends_with(".ts"))).filter(|f| obs.iter().any(|o| o.before.get(*f) != o.after.get(*f))).collect();
                    for f in &outs {
                        if !r.pct(40) {
                            continue;
                        }
                        let mut c = all[*f].clone();
                        match r.below(8) {
                            0 => c.extend(b"\n// kept by hand\n"),
                            1 => c.push(b' '),
                            2 => c.truncate(r.below(c.len() + 1)),
                            3 => c.clear(),
                            4 => {
                                let k = r.below(c.len().max(1));
                                if let Some(b) = c.get_mut(k) {
                                    *b ^= 1;
                                }
                            }
                            5 => c = all[*r.pick(&outs)].clone(),
                            6 => c = c.iter().flat_map(|b| if *b == b'\n' { vec![b'\r', b'\n'] } else { vec![*b] }).collect(),
                            _ => {
                                let k = r.below(c.len() + 1);
                                c.splice(k..k, *b"  ");
                            }
                        }
                        let _ = std::fs::write(lab.bx.join(os(f)), c);
                        stamp(lab, f, [now, now - 100, 1_500_000_000][r.below(3)]);
                    }
                }
                Step::Run { args, env } => {
                    let before = lab.files();
                    let run = lab.run(args, env);
                    let after = lab.files();
                    stamp_changed(lab, &before, &after, &[&run], now);
                    obs.push(Obs { run, before, after, proj: cur.clone(), env: env.clone(), overlap: 0, args: args.clone() });
                }
            }
        }
        obs
    }
}
