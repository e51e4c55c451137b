//! Animations written as `bvh!` literals.
//!
//! The programs are enumerated here, and written out as a crate of their own, which is compiled
//! against the current tree (`check.sh`). Compiling is a part of the check: every enumerated
//! program must compile. The result of each program is then compared with what is loaded from
//! the same text.

use crate::engine::*;
use crate::model::*;
use bvh_anim::{Bvh, ChannelType};
use std::collections::HashSet;

pub type Program = (&'static str, fn() -> Bvh);

/// Joint `i` of a program: what is written in its body before its children.
#[derive(Clone)]
struct J {
    parent: Option<usize>,
    name: String,
    offset: Option<[&'static str; 3]>,
    channels: Vec<ChannelType>,
    end: Option<[&'static str; 3]>,
}

struct P {
    joints: Vec<J>,
    frames: usize,
    time: &'static str,
    /// Declared minus actual frames, and values left out of or added to the last frame.
    skew: (i32, i32),
    vals: usize,
}

const NUMS: &[&str] = &[
    "0.0", "1.0", "-1.0", "-0.0", "0.5", "2.25", "-3.75", "1e3", "1.5e-3", "-2E2", "123456.79", "0.1", "33.333332",
    "16777216.0", "3.4028235e38", "1e-45", "00.5", "7.", "16777217.0", "8388608.5", "-0.00000012345679", "1.00000005960464478", "1.00000017881393433", "1e-46", "-0.3",
];

fn num(k: usize) -> &'static str {
    // The last ones only now and then.
    NUMS[k % NUMS.len()]
}

const TIMES: &[&str] =
    &["0.033333333333", "0.0", "1.0", "0.5", "0.1", "0.0083333333", "120.0", "1e-3", "1e-9", "0", "1", "30", "0.016666667", "3600.000000001"];

/// Frame times which fall between two nanoseconds, or which are seldom.
const MORE_TIMES: &[&str] = &[
    "0.0416666667", "0.0416666666", "0.0333333333", "0.0166666667", "0.0166666666", "0.011111111111", "0.0069444444444444",
    "0.0208333333333333", "0.0138888888888", "0.0000000005", "0.0000000004", "0.0000000015", "0.0000000006", "0.9999999996", "0.9999999994",
    "1.9999999999", "0.99999999999999999", "59.9999999995", "12345.678901234", "123456.789012345", "1048576.000000001", "1e-10", "1e6", "2.5e-2",
    "86400", "86399.9999999999", "0.04", "0.024", "0.3", "0.7", "1.1", "2.3", "0.0000001", "100.01", "00.1", "1000000",
];

fn j(parent: Option<usize>, i: usize, channels: usize, end: bool) -> J {
    let at = 7 * i + channels;
    J {
        parent,
        name: ["Hips", "Chest", "neck1", "Left_Arm", "x", "J5", "Site", "JOINT"][i % 8].to_string(),
        offset: Some([num(at), num(at + 1), num(at + 2)]),
        channels: channel_list(channels, i + channels),
        end: if end { Some([num(at + 3), num(at + 4), num(at + 5)]) } else { None },
    }
}

fn program(joints: Vec<J>, frames: usize, time: &'static str) -> P {
    P { joints, frames, time, skew: (0, 0), vals: 0 }
}

fn body(p: &P, i: usize, depth: usize, out: &mut String) {
    let pad = " ".repeat(2 * depth);
    let jt = &p.joints[i];
    out.push_str(&format!("{}{} {}\n{}{{\n", pad, if i == 0 { "ROOT" } else { "JOINT" }, jt.name, pad));
    if let Some(o) = jt.offset {
        out.push_str(&format!("{}  OFFSET {}\n", pad, o.join(" ")));
        let types: String = jt.channels.iter().map(|c| format!(" {}", type_name(*c))).collect();
        out.push_str(&format!("{}  CHANNELS {}{}\n", pad, jt.channels.len(), types));
    }
    for c in 0..p.joints.len() {
        if p.joints[c].parent == Some(i) {
            body(p, c, depth + 1, out);
        }
    }
    if let Some(e) = jt.end {
        out.push_str(&format!("{0}  End Site\n{0}  {{\n{0}    OFFSET {1}\n{0}  }}\n", pad, e.join(" ")));
    }
    out.push_str(&format!("{}}}\n", pad));
}

fn text(p: &P) -> String {
    let mut out = String::from("HIERARCHY\n");
    body(p, 0, 0, &mut out);
    out.push_str(&format!("MOTION\nFrames: {}\nFrame Time: {}\n", p.frames as i32 + p.skew.0, p.time));
    let width: usize = p.joints.iter().map(|j| if j.offset.is_some() { j.channels.len() } else { 0 }).sum();
    let mut k = p.vals;
    for f in 0..p.frames {
        let extra = if f + 1 == p.frames { p.skew.1 } else { 0 };
        let row: Vec<&str> = (0..width as i32 + extra)
            .map(|_| {
                k += 1;
                num(k)
            })
            .collect();
        out.push_str(&row.join(" "));
        out.push('\n');
    }
    out
}

fn parents_of(n: usize) -> Vec<Vec<Option<usize>>> {
    // All trees with n nodes, in preorder.
    let mut out: Vec<Vec<Option<usize>>> = vec![vec![None]];
    for i in 1..n {
        let mut next = vec![];
        for t in &out {
            let mut a = Some(i - 1);
            while let Some(p) = a {
                let mut u = t.clone();
                u.push(Some(p));
                next.push(u);
                a = t[p];
            }
        }
        out = next;
    }
    out
}

/// The texts of all programs.
pub fn texts(thorough: bool) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut add = |p: P| out.push(text(&p));
    // Every tree, in several combinations of channels, end sites and frames.
    let max = if thorough { 7 } else { 5 };
    for n in 1..=max {
        for (t, parents) in parents_of(n).into_iter().enumerate() {
            let leaf = |i: usize| !parents.contains(&Some(i));
            for variant in 0..6 {
                let joints = (0..n)
                    .map(|i| {
                        let channels = match variant {
                            0 => 1,
                            1 => [3, 6, 2][i % 3],
                            2 => (i + 1) % 2,
                            3 => 9 - i,
                            4 => 0,
                            _ => i + t % 2,
                        };
                        let end = leaf(i) && (variant % 2 == 0 || i % 2 == 1);
                        j(parents[i], i + variant, channels, end)
                    })
                    .collect::<Vec<_>>();
                let width: usize = joints.iter().map(|j| j.channels.len()).sum();
                add(program(joints, if width == 0 { 0 } else { (t + variant) % 3 }, TIMES[(t + variant) % TIMES.len()]));
            }
        }
    }
    // Every tree, in every combination of 0, 1 or 3 channels per joint, and of end sites.
    for n in 1..=(if thorough { 5 } else { 4 }) {
        for parents in parents_of(n) {
            let leaves: Vec<usize> = (0..n).filter(|i| !parents.contains(&Some(*i))).collect();
            for counts in 0..3usize.pow(n as u32) {
                for ends in 0..1 << leaves.len() {
                    let joints: Vec<J> = (0..n)
                        .map(|i| {
                            let channels = [0, 1, 3][counts / 3usize.pow(i as u32) % 3];
                            let end = leaves.iter().position(|l| *l == i).map_or(false, |l| ends >> l & 1 == 1);
                            j(parents[i], i, channels, end)
                        })
                        .collect();
                    let width: usize = joints.iter().map(|j| j.channels.len()).sum();
                    let frames = if width == 0 { 0 } else { (counts + ends) % 3 };
                    add(program(joints, frames, TIMES[(counts + ends) % TIMES.len()]));
                }
            }
        }
    }
    // Every number of channels, starting with every type, for the root and for a child.
    for k in 0..=9 {
        for shift in 0..6 {
            let mut r = j(None, 0, 0, false);
            r.channels = channel_list(k, shift);
            let mut c = j(Some(0), 1, 0, true);
            c.channels = channel_list(9 - k, shift + 1);
            add(program(vec![r, c], (k + shift) % 2, TIMES[shift]));
        }
    }
    // Every channel type in every position of three.
    for a in 0..6 {
        for b in 0..6 {
            let r = j(None, 0, 0, true);
            for c in 0..6 {
                let mut r = r.clone();
                r.channels = vec![TYPES[a], TYPES[b], TYPES[c]];
                add(program(vec![r], 1, TIMES[a]));
            }
        }
    }
    // Names.
    for (i, name) in [
        "a", "_a", "A1", "ROOT", "JOINT", "End", "Site", "OFFSET", "CHANNELS", "HIERARCHY", "MOTION", "Frames", "Frame",
        "Time", "Xposition", "fn", "loop", "bvh", "builder", "joint", "self", "Self", "new_bvh", "é", "名",
    ]
    .iter()
    .enumerate()
    {
        let mut r = j(None, 0, 1, false);
        let mut c = j(Some(0), 1, 2, true);
        if i % 2 == 0 {
            r.name = name.to_string();
        }
        c.name = name.to_string();
        add(program(vec![r, c], 1, "0.1"));
    }
    // Joints without anything but children or an end site.
    for bare in 0..8 {
        let mut js = vec![j(None, 0, 1, false), j(Some(0), 1, 2, false), j(Some(1), 2, 3, bare % 3 == 1)];
        for i in 0..3 {
            if bare & (1 << i) != 0 {
                js[i].offset = None;
                js[i].channels.clear();
            }
        }
        let width: usize = js.iter().map(|j| j.channels.len()).sum();
        add(program(js, if width == 0 { 0 } else { 2 }, "0.25"));
    }
    // Numbers and frame times.
    for (i, time) in TIMES.iter().chain(MORE_TIMES).enumerate() {
        add(program(vec![j(None, i, 2, true)], i % 3, time));
    }
    for i in 0..NUMS.len() {
        let mut p = program(vec![j(None, i, 3, true)], 2, "0.5");
        p.vals = i;
        add(p);
    }
    // Numbers of frames, and declarations which do not agree with the values.
    for frames in 1..=(if thorough { 60 } else { 20 }) {
        for width in [1, 4, 9] {
            add(program(vec![j(None, 0, width, true)], frames, "0.5"));
        }
    }
    for frames in 1..=3 {
        for width in [1, 2, 3] {
            for skew in [(1, 0), (-1, 0), (0, 1), (0, -1), (1, -1), (0, width as i32), (1, width as i32)] {
                let mut p = program(vec![j(None, 0, width, true)], frames, "0.5");
                p.skew = skew;
                if frames as i32 + skew.0 > 0 && frames * width > 1 {
                    add(p);
                }
            }
        }
    }
    // Depth.
    for n in [6, 9, 16] {
        add(program((0..n).map(|i| j((i as usize).checked_sub(1), i, 1 + i % 2, i + 1 == n)).collect(), 1, "0.5"));
        add(program((0..n).map(|i| j(if i == 0 { None } else { Some(0) }, i, 1 + i % 2, i > 0)).collect(), 1, "0.5"));
    }
    // Larger shapes: chain, star, star below a child, comb, bushes, back to the root at the end.
    for n in if thorough { vec![24usize, 33, 40, 48, 65, 90] } else { vec![24usize, 33, 40, 65, 90] } {
        let shapes: [&dyn Fn(usize) -> usize; 6] =
            [&|i| i - 1, &|_| 0, &|i| if i == 1 { 0 } else { 1 }, &|i| if i % 2 == 0 { i - 2 } else { i - 1 }, &|i| (i - 1) / 3, &|i| if i + 1 == n { 0 } else { i - 1 }];
        for (k, shape) in shapes.iter().enumerate() {
            // Into the order of a document.
            let mut parents: Vec<Option<usize>> = vec![];
            let mut order: Vec<usize> = vec![];
            let mut stack = vec![(0usize, None)];
            while let Some((i, p)) = stack.pop() {
                let at = order.len();
                order.push(i);
                parents.push(p);
                for c in (1..n).rev().filter(|c| shape(*c) == i) {
                    stack.push((c, Some(at)));
                }
            }
            let leaf: Vec<bool> = (0..n).map(|i| !parents.contains(&Some(i))).collect();
            add(program((0..n).map(|i| j(parents[i], i, 1 + (i + k) % 3, leaf[i] && i % 5 != 3)).collect(), k % 3, TIMES[k % TIMES.len()]));
        }
    }
    // Many channels, nine per joint at most, and many frames.
    for width in if thorough { vec![10, 17, 33, 64, 100] } else { vec![10, 17, 33, 64] } {
        let n = width / 9 + 2;
        add(program((0..n).map(|i| j((i as usize).checked_sub(1), i, 9 - i % 2, i + 1 == n)).collect(), 2, "0.5"));
        add(program(vec![j(None, 0, 2, true)], width, "0.5"));
    }
    // More channels than fit into a byte.
    for n in [28usize, 29, 30, 58] {
        add(program((0..n).map(|i| j(if i == 0 { None } else if n % 2 == 0 { Some(0) } else { Some(i - 1) }, i, 9, i + 1 == n)).collect(), 2, "0.5"));
    }
    let mut seen = HashSet::new();
    out.retain(|t| seen.insert(t.clone()));
    out
}

/// Write the crate of programs.
pub fn write_programs(thorough: bool, dir: &std::path::Path, mc: &str, repo: &str) -> std::io::Result<usize> {
    let all = texts(thorough);
    let mut src = String::from("use bvh_anim::Bvh;\n\n");
    for (i, t) in all.iter().enumerate() {
        src.push_str(&format!("fn p{}() -> Bvh {{\nbvh_anim::bvh! {{\n{}}}\n}}\n\n", i, t));
    }
    let empties = [
        ("", "0"),
        ("HIERARCHY MOTION", "0"),
        ("HIERARCHY\nMOTION\nFrames: 0", "0"),
        ("HIERARCHY\nMOTION\nFrames: 0\nFrame Time: 0.25", "0.25"),
        ("HIERARCHY\nMOTION\nFrames: 0\nFrame Time: 2", "2"),
    ];
    for (i, (t, _)) in empties.iter().enumerate() {
        src.push_str(&format!("fn e{}() -> Bvh {{\nbvh_anim::bvh! {{\n{}\n}}\n}}\n\n", i, t));
    }
    src.push_str("pub static PROGRAMS: &[mc::props::literal::Program] = &[\n");
    for (i, t) in all.iter().enumerate() {
        src.push_str(&format!("({:?}, p{}),\n", t, i));
    }
    src.push_str("];\npub static EMPTY: &[mc::props::literal::Program] = &[\n");
    for (i, (_, time)) in empties.iter().enumerate() {
        src.push_str(&format!("({:?}, e{}),\n", time, i));
    }
    src.push_str("];\n");
    let main = r#"#![recursion_limit = "1024"]
#![allow(warnings)]
use mc::engine::*;
use mc::props::literal;

#[rustfmt::skip]
mod programs;

fn programs(ch: &mut Ch) -> Outcome {
    literal::compare(ch, programs::PROGRAMS)
}
fn empty(ch: &mut Ch) -> Outcome {
    literal::compare_empty(ch, programs::EMPTY)
}
static SUITES: &[Suite] = &[
    Suite::new("programs", literal::WHAT, programs),
    Suite::new("empty", "the literals of empty animations", empty),
];
static C12: Property = literal::property(SUITES);
static ALL: &[&Property] = &[&C12];

fn main() {
    mc::main_with(ALL)
}
"#;
    std::fs::create_dir_all(dir.join("src"))?;
    let toml = format!(
        "[package]\nname = \"literals-{}\"\nversion = \"0.1.0\"\nedition = \"2018\"\n\n[workspace]\n\n[dependencies]\nmc = {{ path = {:?} }}\nbvh_anim = {{ path = {:?} }}\n\n\
         [profile.dev]\nopt-level = 0\ndebug = false\ndebug-assertions = true\noverflow-checks = true\nincremental = false\n",
        if thorough { "thorough" } else { "quick" }, mc, repo
    );
    for (name, text) in [("Cargo.toml", toml), ("src/main.rs", main.to_string()), ("src/programs.rs", src)] {
        let path = dir.join(name);
        if std::fs::read(&path).map_or(true, |old| old != text.as_bytes()) {
            std::fs::write(path, text)?;
        }
    }
    Ok(all.len() + empties.len())
}

pub const WHAT: &str = "one program for every tree of up to 4 (thorough: 5) joints in every combination of 0, 1 or 3 channels and of end sites, \
 every tree of up to 5 (thorough: 7) joints in 6 others, every number and type of channels, names, bare joints, numbers, frame times, frame counts right and \
 wrong, depths and widths";

pub const fn property(suites: &'static [Suite]) -> Property {
    Property {
        id: "C12",
        level: "model_checking",
        rule: "one evaluation runs one compiled program and compares its result with what is loaded from the same text; told apart by the text",
        assumptions: &["the programs are compiled by the installed stable compiler"],
        suites,
    }
}

pub fn compare(ch: &mut Ch, programs: &[Program]) -> Outcome {
    let (text, run) = *ch.pick(programs);
    ch.note(|| text.to_string());
    ch.state(hash_bytes(text.as_bytes()));
    ch.traces(1);
    ch.steps(text.lines().count());
    let loaded = Bvh::from_bytes(text);
    let literal = no_panic(run);
    match (literal, loaded) {
        (Ok(l), Ok(b)) => {
            ch.outcome("both accept");
            let (ol, ob) = (observe(&l)?, observe(&b)?);
            same(&ol, &ob).map_err(|e| format!("the literal differs from the loaded text: {}", e))?;
            crate::model::ensure!(l == b && b == l, "the literal has the same contents, but is not equal");
            let (tl, tb) = (l.to_string(), b.to_string());
            crate::model::ensure!(tl == tb, "the literal is written differently:\n{}\n{}", show(&tl), show(&tb));
            Ok(())
        }
        (Err(_), Err(_)) => {
            ch.outcome("both reject");
            Ok(())
        }
        (Ok(_), Err(e)) => Err(format!("the literal is accepted, but loading the text fails: {}", e)),
        (Err(p), Ok(_)) => Err(format!("the text is loaded, but the literal {}", p)),
    }
}

pub fn compare_empty(ch: &mut Ch, programs: &[Program]) -> Outcome {
    let (time, run) = *ch.pick(programs);
    ch.note(|| format!("an empty literal with frame time {}", time));
    ch.state(hash_bytes(time.as_bytes()));
    ch.traces(1);
    let b = no_panic(run)?;
    let got = observe(&b)?;
    let want = MDoc {
        joints: vec![],
        frames: vec![],
        frame_time: std::time::Duration::from_secs_f64(time.parse().unwrap()),
    };
    same(&got, &want)
}
