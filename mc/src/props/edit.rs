//! Histories of operations on an animation in memory.

use super::gen::*;
use crate::engine::*;
use crate::model::*;
use bvh_anim::errors::SetMotionError;
use bvh_anim::frames::{Frame, FrameCursor, FrameMut, Frames, FramesMut};
use bvh_anim::Bvh;
use std::borrow::{Borrow, BorrowMut};
use std::collections::VecDeque;
use std::time::Duration;

// ---------------------------------------------------------------------------------------------
// C09: the frame cursor

/// The reference: a list of frames, and a position between them.
#[derive(Clone, Debug)]
struct List {
    frames: Vec<Vec<f32>>,
    at: usize,
    width: usize,
}

impl List {
    fn insert(&mut self, f: &[f32]) -> bool {
        if f.len() != self.width {
            return false;
        }
        if self.width > 0 {
            self.frames.insert(self.at, f.to_vec());
            self.at += 1;
        }
        true
    }
}

const OPS: &[&str] = &[
    "end", "next", "prev", "first", "last", "insert", "insert short", "insert long", "remove", "remove all", "insert 0",
    "insert 1", "insert 2", "insert good, bad, good", "insert bad, good", "insert 2, unsized hint", "edit next", "edit prev",
    "shrink", "new cursor", "insert 3, rough hint",
];

struct Hinted<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

fn same_frame(got: Option<Frame<'_>>, want: Option<&Vec<f32>>, what: &str) -> Outcome {
    match (&got, want) {
        (None, None) => Ok(()),
        (Some(f), Some(w)) if f.as_slice().len() == w.len() && f.as_slice().iter().zip(w).all(|(a, b)| same_f32(*a, *b)) => Ok(()),
        _ => Err(format!("{} is {:?}, expected {:?}", what, got, want)),
    }
}

fn watch(c: &FrameCursor<'_>, m: &List, deep: bool) -> Outcome {
    ensure!(c.index() == m.at, "the cursor is at {}, expected {}", c.index(), m.at);
    ensure!(c.len() == m.frames.len(), "len() is {}, expected {}", c.len(), m.frames.len());
    ensure!(c.num_channels() == m.width, "num_channels() is {}, expected {}", c.num_channels(), m.width);
    same_frame(c.peek_next(), m.frames.get(m.at), "the next frame")?;
    let prev = m.at.checked_sub(1).and_then(|i| m.frames.get(i));
    same_frame(c.peek_prev(), prev, "the previous frame")?;
    if deep {
        let (p, n) = c.surrounding_frames();
        same_frame(p, prev, "the first surrounding frame")?;
        same_frame(n, m.frames.get(m.at), "the second surrounding frame")?;
    }
    Ok(())
}

/// Apply one operation to both.
fn apply(op: usize, c: &mut FrameCursor<'_>, m: &mut List, fresh: &mut u32) -> Outcome {
    let width = m.width;
    let mut make = |n: usize| -> Vec<f32> {
        *fresh += 1;
        (0..n).map(|i| *fresh as f32 * 100.0 + i as f32).collect()
    };
    let expect = |ok: bool, want: bool, what: &str| -> Outcome {
        ensure!(ok == want, "{}: {}, expected {}", what, if ok { "ok" } else { "an error" }, if want { "ok" } else { "an error" });
        Ok(())
    };
    match op {
        1 => {
            c.move_next();
            m.at = (m.at + 1).min(m.frames.len());
        }
        2 => {
            c.move_prev();
            m.at = m.at.saturating_sub(1);
        }
        3 => {
            c.move_first();
            m.at = 0;
        }
        4 => {
            c.move_last();
            m.at = m.frames.len();
        }
        5 => {
            let f = make(width);
            expect(c.try_insert_frame(&f).is_ok(), m.insert(&f), "inserting a frame")?;
        }
        6 | 7 => {
            let n = if op == 6 { width.saturating_sub(1) } else { width + 1 };
            let f = make(n);
            let r = c.try_insert_frame(&f).map(|_| ());
            if let Err(e) = &r {
                let s = e.to_string();
                let numbers: Vec<usize> = s.split(|c: char| !c.is_ascii_digit()).filter_map(|n| n.parse().ok()).collect();
                ensure!(numbers.contains(&n) && numbers.contains(&width), "the message is {:?}", s);
                ensure!(numbers == [n, width] || !s.starts_with("Attempted to insert a frame with"), "the message is {:?}, for a frame of {} in an animation of {}", s, n, width);
            }
            expect(r.is_ok(), m.insert(&f), "inserting a frame of another width")?;
        }
        8 => {
            let r = c.remove_frame().map(|_| ());
            if let Err(e) = &r {
                let s = e.to_string();
                ensure!(s.contains(&m.at.to_string()), "the message is {:?}", s);
            }
            let want = m.at < m.frames.len();
            if want {
                m.frames.remove(m.at);
            }
            expect(r.is_ok(), want, "removing a frame")?;
        }
        9 => {
            c.remove_all_frames();
            m.frames.clear();
            m.at = 0;
        }
        10..=15 | 20 => {
            let widths: &[isize] = match op {
                10 => &[],
                11 => &[0],
                12 | 15 => &[0, 0],
                13 => &[0, 1, 0],
                14 => &[1, 0],
                _ => &[0, 0, 0],
            };
            let list: Vec<Vec<f32>> = widths.iter().map(|d| make((width as isize + d) as usize)).collect();
            let r = match op {
                15 => c.try_insert_frames(Hinted(list.iter(), (0, None))).map(|_| ()),
                20 => c.try_insert_frames(Hinted(list.iter(), (2, Some(1000)))).map(|_| ()),
                _ => c.try_insert_frames(&list).map(|_| ()),
            };
            // Up to the first one which does not fit.
            let want = list.iter().all(|f| m.insert(f));
            expect(r.is_ok(), want, "inserting frames")?;
        }
        16 | 17 => {
            let (frame, i) = if op == 16 { (c.peek_next_mut(), Some(m.at)) } else { (c.peek_prev_mut(), m.at.checked_sub(1)) };
            let want = i.and_then(|i| m.frames.get_mut(i));
            match (frame, want) {
                (None, None) => {}
                (Some(mut f), Some(w)) => {
                    ensure!(f.as_slice() == &w[..], "the frame to edit is {:?}, expected {:?}", f, w);
                    *fresh += 1;
                    let last = f.len() - 1;
                    f[last] = *fresh as f32 * 100.0 + 50.0;
                    w[last] = *fresh as f32 * 100.0 + 50.0;
                }
                (f, w) => return Err(format!("the frame to edit is {:?}, expected {:?}", f, w)),
            }
        }
        18 => c.shrink_to_fit(),
        _ => {}
    }
    Ok(())
}

/// The frames from the cursor on, and the whole animation.
fn finish(ch: &mut Ch, mut bvh: Bvh, m: &List, doc: &MDoc) -> Outcome {
    let rest = m.frames.get(m.at..).unwrap_or(&[]);
    let list = |it: Frames<'_>| -> Vec<Vec<f32>> { it.map(|f| f.as_slice().to_vec()).collect() };
    let list_mut = |it: FramesMut<'_>| -> Vec<Vec<f32>> { it.map(|f| f.as_slice().to_vec()).collect() };
    let mut seek = |how: u32| -> (usize, Vec<Vec<f32>>) {
        let mut c = bvh.frame_cursor();
        for _ in 0..m.at {
            c.move_next();
        }
        let at = c.index();
        (at, match how {
            0 => list(c.into_frames()),
            1 => list_mut(c.into_frames_mut()),
            2 => list(Frames::from(c)),
            _ => list_mut(FramesMut::from(c)),
        })
    };
    for how in 0..4 {
        let (at, got) = seek(how);
        ensure!(at == m.at, "moving {} times gets to {}", m.at, at);
        same_frames(&got, rest).map_err(|e| format!("the frames from the cursor on: {}", e))?;
    }
    let mut want = doc.clone();
    want.frames = m.frames.clone();
    ch.traces(1);
    matches(&bvh, &want)?;
    nothing_else(bvh, &want)
}

/// The values which are taken out of the animation are those of its frames, and no others.
fn nothing_else(mut bvh: Bvh, want: &MDoc) -> Outcome {
    let flat = bvh.extract_frames();
    let bits = |v: &mut dyn Iterator<Item = f32>| -> Vec<u32> { v.map(|x| x.to_bits()).collect() };
    let (got, expected) = (bits(&mut flat.iter().copied()), bits(&mut want.frames.iter().flatten().copied()));
    ensure!(got == expected, "the animation holds {} values, not the {} of its frames", got.len(), expected.len());
    Ok(())
}

fn cursor_start(ch: &mut Ch) -> MDoc {
    let channels = ch.upto(3);
    let frames = if channels == 0 { 0 } else { ch.upto(3) };
    if channels == 3 {
        make_doc(&[None, Some(0), Some(0)], &[1, 2, 0], &[false, true, true], frames, 0)
    } else {
        tiny(channels, frames)
    }
}

fn c09_histories(ch: &mut Ch) -> Outcome {
    let doc = cursor_start(ch);
    let mut bvh = load(&doc.text())?;
    let mut m = List { frames: doc.frames.clone(), at: 0, width: doc.width() };
    let mut fresh = 0;
    let mut history: Vec<&str> = vec![];
    let bound = ch.bound();
    {
        let mut c = bvh.frame_cursor();
        watch(&c, &m, true)?;
        for _ in 0..bound {
            let op = ch.choose(OPS.len() as u32) as usize;
            if op == 0 {
                break;
            }
            history.push(OPS[op]);
            if op == 19 {
                drop(c);
                c = FrameCursor::from(&mut bvh);
                m.at = 0;
            } else {
                apply(op, &mut c, &mut m, &mut fresh).map_err(|e| format!("{}; after {:?}", e, history))?;
            }
            ch.steps(1);
            watch(&c, &m, false).map_err(|e| format!("{}; after {:?}", e, history))?;
        }
        watch(&c, &m, true).map_err(|e| format!("{}; after {:?}", e, history))?;
    }
    ch.note(|| format!("{} channels, {} frames: {:?}", doc.width(), doc.frames.len(), history));
    ch.state(hash_debug(&(m.width, m.at, &m.frames)));
    finish(ch, bvh, &m, &doc).map_err(|e| format!("{}; after {:?}", e, history))
}

/// Every short word of operations, repeated.
fn c09_repeated(ch: &mut Ch) -> Outcome {
    let doc = cursor_start(ch);
    let mut bvh = load(&doc.text())?;
    let mut m = List { frames: doc.frames.clone(), at: 0, width: doc.width() };
    let mut word = vec![];
    for _ in 0..ch.bound() {
        let op = ch.choose(OPS.len() as u32) as usize;
        if op == 0 {
            break;
        }
        word.push(op);
    }
    let names: Vec<&str> = word.iter().map(|o| OPS[*o]).collect();
    ch.note(|| format!("{} channels, {} frames, 24 times {:?}", doc.width(), doc.frames.len(), names));
    let mut fresh = 0;
    {
        let mut c = bvh.frame_cursor();
        for round in 0..24 {
            for &op in &word {
                if op == 19 {
                    drop(c);
                    c = FrameCursor::from(&mut bvh);
                    m.at = 0;
                } else {
                    apply(op, &mut c, &mut m, &mut fresh).map_err(|e| format!("{}; round {} of {:?}", e, round, names))?;
                }
                ch.steps(1);
                watch(&c, &m, true).map_err(|e| format!("{}; round {} of {:?}", e, round, names))?;
            }
        }
    }
    ch.state(hash_debug(&(m.width, m.at, &m.frames, names.len())));
    finish(ch, bvh, &m, &doc).map_err(|e| format!("{}; rounds of {:?}", e, names))
}

/// One operation, or two, at every position of a longer animation.
fn c09_positions(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let width = *ch.pick(&[1usize, 2, 3, 5, 17, 64]);
    let frames = ch.upto(n);
    let doc = tiny(width, frames);
    let at = ch.upto(frames);
    let from_end = ch.flag();
    let op = 1 + ch.choose(OPS.len() as u32 - 1) as usize;
    let second = ch.choose(OPS.len() as u32) as usize;
    ch.note(|| format!("{} frames of {} channels, at {}: {}, {}", frames, width, at, OPS[op], OPS[second]));
    let mut bvh = load(&doc.text())?;
    let mut m = List { frames: doc.frames.clone(), at: 0, width };
    let mut fresh = 500;
    {
        let mut c = bvh.frame_cursor();
        if from_end {
            c.move_last();
            m.at = frames;
            while m.at > at {
                c.move_prev();
                m.at -= 1;
            }
        } else {
            while m.at < at {
                c.move_next();
                m.at += 1;
            }
        }
        watch(&c, &m, true)?;
        for op in [op, second] {
            if op == 19 {
                drop(c);
                c = FrameCursor::from(&mut bvh);
                m.at = 0;
            } else {
                apply(op, &mut c, &mut m, &mut fresh)?;
            }
            ch.steps(1);
            watch(&c, &m, true)?;
        }
    }
    ch.state(hash_debug(&(m.width, m.at, &m.frames)));
    finish(ch, bvh, &m, &doc)
}

/// Batches of every size, at every position, into spare capacity and not.
fn c09_batches(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let width = *ch.pick(&[1usize, 2, 4]);
    let frames = ch.upto(6);
    let at = ch.upto(frames);
    let batch = ch.upto(n);
    let bad = ch.upto(batch + 1); // 0: none is bad
    if bad > batch {
        return Ok(());
    }
    let shrink = ch.flag();
    let doc = tiny(width, frames);
    let mut bvh = load(&doc.text())?;
    let mut m = List { frames: doc.frames.clone(), at: 0, width };
    let list: Vec<Vec<f32>> = (0..batch).map(|i| vec![1000.0 + i as f32; if i + 1 == bad { width - 1 } else { width }]).collect();
    ch.note(|| format!("{} frames of {} channels, at {}: {} frames, bad is {}", frames, width, at, batch, bad));
    {
        let mut c = bvh.frame_cursor();
        if shrink {
            c.shrink_to_fit();
        }
        for _ in 0..at {
            c.move_next();
            m.at += 1;
        }
        let r = c.try_insert_frames(&list).map(|_| ());
        let want = list.iter().all(|f| m.insert(f));
        ensure!(r.is_ok() == want, "inserting frames: {:?}", r);
        ch.steps(batch);
        watch(&c, &m, true)?;
    }
    ch.state(hash_debug(&(m.width, m.at, &m.frames, bad)));
    finish(ch, bvh, &m, &doc)
}

/// Long animations: the operations at their ends and around the sizes of small integers.
fn c09_long(ch: &mut Ch) -> Outcome {
    const LENGTHS: &[usize] = &[127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 32767, 32768, 65535, 65536, 65537, 70000];
    let n = LENGTHS[ch.upto(ch.bound() - 1)];
    let width = *ch.pick(&[1usize, 2, 3]);
    at_length(ch, n, width, true)
}

/// Animations whose number of frames does not fit into 16 bits.
fn c09_huge(ch: &mut Ch) -> Outcome {
    let n = *ch.pick(&[32_768usize, 65_535, 65_536, 65_537, 70_000]);
    let two = ch.thorough();
    at_length(ch, n, 1, two)
}

fn at_length(ch: &mut Ch, n: usize, width: usize, two: bool) -> Outcome {
    let mut bvh = load(&tiny(width, 0).text())?;
    let frames: Vec<Vec<f32>> = (0..n).map(|i| (0..width).map(|k| (i * width + k) as f32 + 0.5).collect()).collect();
    let mut m = List { frames: vec![], at: 0, width };
    let doc = tiny(width, 0);
    // Where the operations take place.
    let place = ch.choose(6);
    let first = ch.choose(OPS.len() as u32) as usize;
    let second = if two { ch.choose(OPS.len() as u32) as usize } else { 0 };
    ch.note(|| format!("{} frames of {} channels, place {}: {}, {}", n, width, place, OPS[first], OPS[second]));
    ch.traces(1);
    ch.state(hash_debug(&(n, width, place, first, second)));
    let mut fresh = 1_000_000;
    let mut c = bvh.frame_cursor();
    c.try_insert_frames(&frames).map_err(|e| e.to_string())?;
    m.at = n;
    m.frames = frames;
    watch(&c, &m, true)?;
    match place {
        0 => {}
        1 => {
            c.move_first();
            m.at = 0;
        }
        2 => {
            c.move_first().move_last();
        }
        3 => {
            c.move_last().move_prev();
            m.at = n - 1;
        }
        4 => {
            for _ in 0..n / 2 {
                c.move_prev();
            }
            m.at = n - n / 2;
        }
        _ => {
            c.move_first();
            for _ in 0..n - 1 {
                c.move_next();
            }
            m.at = n - 1;
        }
    }
    watch(&c, &m, true)?;
    for op in [first, second] {
        if op == 19 {
            drop(c);
            c = FrameCursor::from(&mut bvh);
            m.at = 0;
        } else {
            apply(op, &mut c, &mut m, &mut fresh)?;
        }
        ch.steps(1);
        watch(&c, &m, true)?;
    }
    let rest = c.into_frames();
    ensure!(rest.len() == m.frames.len() - m.at, "{} frames from the cursor on, expected {}", rest.len(), m.frames.len() - m.at);
    for (f, w) in rest.zip(&m.frames[m.at..]) {
        ensure!(f.as_slice() == &w[..], "a frame after the cursor is {:?}, expected {:?}", f, w);
    }
    let mut c = bvh.frame_cursor();
    if m.at == m.frames.len() {
        c.move_last();
    } else {
        for _ in 0..m.at {
            c.move_next();
        }
    }
    let rest = c.into_frames_mut();
    ensure!(rest.len() == m.frames.len() - m.at, "{} mutable frames from the cursor on, expected {}", rest.len(), m.frames.len() - m.at);
    for (f, w) in rest.zip(&m.frames[m.at..]) {
        ensure!(f.as_slice() == &w[..], "a mutable frame after the cursor is {:?}, expected {:?}", f, w);
    }
    let mut want = doc;
    want.frames = m.frames;
    matches(&bvh, &want)?;
    nothing_else(bvh, &want)
}

pub static C09: Property = Property {
    id: "C09",
    level: "model_checking",
    rule: "one evaluation runs one history against the library and a list with a position, and compares every observer after every operation; states are told apart by the position and the frames",
    assumptions: &[],
    suites: &[
        Suite::new("histories", "13 animations, every history of up to so many of 20 operations", c09_histories).bound(4, 5),
        Suite::new("repeated", "13 animations, every word of up to so many of 20 operations, repeated 24 times", c09_repeated).bound(2, 3),
        Suite::new("positions", "animations of every length, two operations at every position, reached from both ends", c09_positions).bound(9, 24),
        Suite::new("batches", "batches of every size at every position, with a frame of another width at every place of the batch", c09_batches).bound(12, 40),
        Suite::new("long", "animations of up to 5000 (thorough: 70000) frames, two operations at 6 positions", c09_long).bound(18, 24),
        Suite::new("huge", "animations of 32768 to 70000 frames, one operation (thorough: two) at 6 positions", c09_huge),
    ],
};

// ---------------------------------------------------------------------------------------------
// C10: frames as sequences, and the values of a frame

fn vals_of(f: &[f32]) -> Vec<u32> {
    f.iter().map(|v| v.to_bits()).collect()
}

fn c10_walk(ch: &mut Ch) -> Outcome {
    let channels = ch.upto(3);
    let frames = ch.upto(5);
    let mutable = ch.flag();
    let doc = tiny(channels, frames);
    let mut bvh = load(&doc.text())?;
    let mut want: VecDeque<Vec<f32>> = doc.frames.iter().cloned().collect();
    let mut hist = vec![];
    enum It<'a> {
        Ref(Frames<'a>),
        Mut(FramesMut<'a>),
    }
    let mut it = if mutable { It::Mut(bvh.frames_mut()) } else { It::Ref(bvh.frames()) };
    for _ in 0..ch.bound() {
        let op = ch.choose(7) as usize;
        if op == 0 {
            break;
        }
        hist.push(["", "next", "next_back", "nth(1)", "nth_back(1)", "nth(2)", "nth(0)"][op]);
        ch.steps(1);
        let got: Option<Vec<u32>> = match &mut it {
            It::Ref(i) => match op {
                1 => i.next(),
                2 => i.next_back(),
                3 => i.nth(1),
                4 => i.nth_back(1),
                5 => i.nth(2),
                _ => i.nth(0),
            }
            .map(|f| vals_of(f.as_slice())),
            It::Mut(i) => match op {
                1 => i.next(),
                2 => i.next_back(),
                3 => i.nth(1),
                4 => i.nth_back(1),
                5 => i.nth(2),
                _ => i.nth(0),
            }
            .map(|f| vals_of(f.as_slice())),
        };
        let expected = match op {
            1 | 6 => want.pop_front(),
            2 => want.pop_back(),
            3 => {
                want.pop_front();
                want.pop_front()
            }
            4 => {
                want.pop_back();
                want.pop_back()
            }
            _ => {
                want.pop_front();
                want.pop_front();
                want.pop_front()
            }
        };
        ensure!(got == expected.as_ref().map(|f| vals_of(f)), "{:?}: yields {:?}, expected {:?}", hist, got, expected);
        let (len, hint) = match &it {
            It::Ref(i) => (i.len(), i.size_hint()),
            It::Mut(i) => (i.len(), i.size_hint()),
        };
        ensure!(len == want.len(), "{:?}: len() is {}, expected {}", hist, len, want.len());
        ensure!(hint == (want.len(), Some(want.len())), "{:?}: size_hint() is {:?}", hist, hint);
    }
    ch.note(|| format!("{} frames of {} channels, mutable: {}: {:?}", frames, channels, mutable, hist));
    ch.traces(1);
    ch.state(hash_debug(&(channels, frames, mutable, hist.len(), &want)));
    let (rest, last, rev): (Vec<_>, usize, bool) = match it {
        It::Ref(i) => {
            let v: Vec<Vec<u32>> = i.map(|f| vals_of(f.as_slice())).collect();
            let n = v.len();
            (v, n, false)
        }
        It::Mut(i) => {
            let mut v: Vec<Vec<u32>> = i.rev().map(|f| vals_of(f.as_slice())).collect();
            v.reverse();
            let n = v.len();
            (v, n, true)
        }
    };
    ensure!(
        last == want.len() && rest.iter().zip(&want).all(|(a, b)| *a == vals_of(b)),
        "{:?}: what remains (reversed: {}) is {:?}, expected {:?}", hist, rev, rest, want
    );
    matches(&bvh, &doc)
}

/// The cell of a frame which a channel names, through every way to get at it.
fn c10_cells(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let shapes: [&[usize]; 7] = [&[1], &[3], &[6, 3], &[0, 2], &[2, 0, 1], &[3, 4, 7], &[1, 1, 1, 1]];
    let channels = *ch.pick(&shapes);
    let parents: Vec<Option<usize>> = (0..channels.len()).map(|i: usize| i.checked_sub(1)).collect();
    let frames = 1 + ch.upto(n - 1);
    let doc = make_doc(&parents, channels, &vec![false; channels.len()], frames, 7);
    let width = doc.width();
    let mut bvh = load(&doc.text())?;
    let all: Vec<bvh_anim::Channel> = bvh.joints().flat_map(|j| j.channels().to_vec()).collect();
    ensure!(all.len() == width, "{} channels, expected {}", all.len(), width);
    let f = ch.upto(frames - 1);
    let k = ch.upto(width - 1);
    let c = all[k];
    let way = ch.choose(11);
    // Also what is no number, or equal without being the same.
    let new = f32::from_bits(*ch.pick(&[0xc640_e600u32, 0, 0x8000_0000, 0x7fc0_0000, 0x7f80_0000, 0xff80_0000, 1, 0x7f7f_ffff]));
    ch.note(|| format!("channels {:?}, frame {}, channel {}, way {}", channels, f, k, way));
    ch.traces(1);
    ch.state(hash_debug(&(channels, frames, f, k, way, new.to_bits())));
    let mut old = doc.frames[f][k];
    let mut doc = doc;
    if way < 3 {
        // What is there before may be of that sort, too.
        old = f32::from_bits(*ch.pick(&[old.to_bits(), 0x8000_0000, 0x7fc0_0000, 0x7f80_0000, 1]));
        bvh.frames_mut().nth(f).ok_or("no such frame")?.as_mut_slice()[k] = old;
        doc.frames[f][k] = old;
    }
    let doc = doc;
    let alike = |a: &[f32], b: &[f32]| vals_of(a) == vals_of(b);
    let is_old = |r: &Result<f32, SetMotionError>| matches!(r, Ok(v) if v.to_bits() == old.to_bits());
    {
        let frame = bvh.frames().nth(f).ok_or("no such frame")?;
        ensure!(same_f32(frame[c], old) && same_f32(frame[&c], old) && same_f32(frame[k], old), "frame[channel] is {}, expected {}", frame[c], old);
        ensure!([frame.get(c), frame.get(&c), frame.get(k)].iter().all(|g| g.map(|v| v.to_bits()) == Some(old.to_bits())), "get(channel) is {:?}", frame.get(c));
        ensure!(frame.get(0..k + 1).map_or(false, |g| alike(g, &doc.frames[f][0..k + 1])), "get(range) is {:?}", frame.get(0..k + 1));
        ensure!(alike(&frame[k..], &doc.frames[f][k..]), "frame[range] is {:?}", &frame[k..]);
        ensure!(frame.len() == width && frame.is_empty() == (width == 0), "len() is {}", frame.len());
        ensure!(alike(AsRef::<[f32]>::as_ref(&frame), &doc.frames[f]), "as_ref() is {:?}", frame);
        ensure!(alike(Borrow::<[f32]>::borrow(&frame), &doc.frames[f]), "borrow() is {:?}", frame);
        ensure!(frame.get(width).is_none() && frame.get(width + 7).is_none() && frame.get(0..width + 1).is_none(), "a value beyond the frame");
    }
    {
        let mut frame = bvh.frames_mut().nth(f).ok_or("no such frame")?;
        ensure!(same_f32(frame[c], old) && same_f32(frame[&c], old), "frame[channel] is {}, expected {}", frame[c], old);
        ensure!(frame.get(c).map(|v| v.to_bits()) == Some(old.to_bits()) && frame.get(width).is_none(), "get(channel) is {:?}", frame.get(c));
        ensure!(frame.len() == width && !frame.is_empty(), "len() is {}", frame.len());
        ensure!(alike(AsRef::<[f32]>::as_ref(&frame), &doc.frames[f]), "as_ref() is {:?}", frame);
        ensure!(alike(Frame::from(&frame).as_slice(), &doc.frames[f]), "as a frame it is {:?}", frame);
        match way {
            0 => {
                let r = frame.try_set_motion(c, new);
                ensure!(is_old(&r), "try_set_motion yields {:?}, expected {}", r, old);
            }
            1 => {
                let r = frame.try_set_motion(&c, new);
                ensure!(is_old(&r), "try_set_motion yields {:?}, expected {}", r, old);
            }
            2 => {
                let r = frame.try_set_motion(k, new);
                ensure!(is_old(&r), "try_set_motion yields {:?}, expected {}", r, old);
            }
            3 => frame[c] = new,
            4 => frame[&c] = new,
            5 => frame[k..=k][0] = new,
            6 => *frame.get_mut(c).ok_or("get_mut(channel) is None")? = new,
            7 => frame.as_mut_slice()[k] = new,
            8 => AsMut::<[f32]>::as_mut(&mut frame)[k] = new,
            9 => BorrowMut::<[f32]>::borrow_mut(&mut frame)[k] = new,
            _ => {
                // What does not exist is refused, and nothing changes.
                for bad in [width, width + 1, width * 2 + k, usize::MAX] {
                    let r = frame.try_set_motion(bad, new);
                    ensure!(r == Err(SetMotionError::BadChannel(bad)), "setting value {} of {} yields {:?}", bad, width, r);
                    let shown = r.unwrap_err().to_string();
                    ensure!(shown.contains(&bad.to_string()), "the message is {:?}", shown);
                }
            }
        }
    }
    let mut want = doc.clone();
    if way < 10 {
        want.frames[f][k] = new;
    }
    let seen = bvh.frames().nth(f).ok_or("no such frame")?.as_slice()[k].to_bits();
    ensure!(seen == want.frames[f][k].to_bits(), "the value is 0x{:08x}, expected 0x{:08x}", seen, want.frames[f][k].to_bits());
    matches(&bvh, &want)
}

fn c10_foreign(ch: &mut Ch) -> Outcome {
    // A channel of another, wider animation.
    let wide = load(&tiny(ch.bound(), 0).text())?;
    let width = 1 + ch.upto(3);
    let doc = tiny(width, 2);
    let mut bvh = load(&doc.text())?;
    let channels = wide.joints().next().ok_or("no joint")?.channels().to_vec();
    let k = ch.upto(channels.len() - 1);
    let c = channels[k];
    ch.note(|| format!("channel {} of another animation, width {}", k, width));
    ch.traces(1);
    ch.state(hash_debug(&(width, k)));
    let mut want = doc.clone();
    for (i, mut f) in bvh.frames_mut().enumerate() {
        let got = f.get(&c).copied();
        ensure!(got == doc.frames[i].get(k).copied(), "get(channel) is {:?}", got);
        let r = f.try_set_motion(c, 9.5);
        match doc.frames[i].get(k) {
            Some(old) => {
                ensure!(r == Ok(*old), "try_set_motion yields {:?}", r);
                want.frames[i][k] = 9.5;
            }
            None => ensure!(r == Err(SetMotionError::BadChannel(k)), "try_set_motion yields {:?}", r),
        }
    }
    for f in bvh.frames() {
        ensure!(f.get(c).is_some() == (k < width), "get(channel) is {:?}", f.get(c));
    }
    matches(&bvh, &want)
}

fn c10_all(ch: &mut Ch) -> Outcome {
    // Writing through the iterator changes every frame once, in order, from both ends.
    let channels = ch.upto(4);
    let frames = ch.upto(ch.bound());
    let how = ch.choose(3);
    let doc = tiny(channels, frames);
    let mut bvh = load(&doc.text())?;
    let mut want = doc.clone();
    ch.note(|| format!("{} frames of {} channels, way {}", frames, channels, how));
    ch.traces(1);
    ch.state(hash_debug(&(channels, frames, how)));
    let edit = |mut f: FrameMut<'_>, k: usize| {
        for (i, v) in f.as_mut_slice().iter_mut().enumerate() {
            *v = (k * 10 + i) as f32;
        }
    };
    let mut order: Vec<usize> = (0..if channels == 0 { 0 } else { frames }).collect();
    match how {
        0 => bvh.frames_mut().enumerate().for_each(|(k, f)| edit(f, k)),
        1 => {
            order.reverse();
            bvh.frames_mut().rev().enumerate().for_each(|(k, f)| edit(f, k));
        }
        _ => {
            let mut it = bvh.frames_mut();
            let mut k = 0;
            loop {
                let f = if k % 2 == 0 { it.next() } else { it.next_back() };
                match f {
                    Some(f) => edit(f, k),
                    None => break,
                }
                k += 1;
            }
            let n = order.len();
            order = (0..n).map(|k| if k % 2 == 0 { k / 2 } else { n - 1 - k / 2 }).collect();
        }
    }
    for (k, at) in order.iter().enumerate() {
        for i in 0..channels {
            want.frames[*at][i] = (k * 10 + i) as f32;
        }
    }
    matches(&bvh, &want)
}

/// Long animations: the count which remains after every step, from the front, the back, or both.
fn c10_long(ch: &mut Ch) -> Outcome {
    const LENGTHS: &[usize] = &[127, 128, 129, 250, 251, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 32_767, 32_768, 65_535, 65_536, 65_537, 70_000];
    let n = *ch.pick(LENGTHS);
    let width = *ch.pick(&[1usize, 2]);
    let order = ch.choose(5);
    let mutable = ch.flag();
    ch.note(|| format!("{} frames of {} channels, order {}, mutable: {}", n, width, order, mutable));
    ch.traces(1);
    ch.steps(n);
    ch.state(hash_debug(&(n, width, order, mutable)));
    let mut bvh = load(&tiny(width, 0).text())?;
    let frames: Vec<Vec<f32>> = (0..n).map(|i| (0..width).map(|k| (i * width + k) as f32 + 0.5).collect()).collect();
    bvh.frame_cursor().try_insert_frames(&frames).map_err(|e| e.to_string())?;
    let (mut front, mut back) = (0, n);
    // Which end the next step is at, and how many it skips.
    let step = |k: usize| -> (bool, usize) {
        match order {
            0 => (true, 0),
            1 => (false, 0),
            2 => (k % 2 == 0, 0),
            3 => (true, k % 3),
            _ => (k % 3 > 0, 7 * (k % 2)),
        }
    };
    macro_rules! walk {
        ($it:expr) => {{
            let mut it = $it;
            let mut k = 0;
            loop {
                let left = back - front;
                ensure!(it.len() == left && it.size_hint() == (left, Some(left)), "after {} steps, len() is {} and size_hint() {:?}, but {} frames are left", k, it.len(), it.size_hint(), left);
                let (from_front, skip) = step(k);
                let got = if from_front { it.nth(skip) } else { it.nth_back(skip) };
                let want = if left <= skip {
                    front = back;
                    None
                } else if from_front {
                    front += skip + 1;
                    Some(front - 1)
                } else {
                    back -= skip + 1;
                    Some(back)
                };
                match (&got, want) {
                    (None, None) => break,
                    (Some(f), Some(w)) if f.as_slice() == &frames[w][..] => {}
                    _ => return Err(format!("step {} yields {:?}, expected frame {:?}", k, got, want)),
                }
                k += 1;
            }
            ensure!(it.next().is_none() && it.next_back().is_none() && it.len() == 0, "there are frames after the end");
        }};
    }
    if mutable {
        walk!(bvh.frames_mut());
    } else {
        walk!(bvh.frames());
    }
    #[allow(deprecated)]
    let counted = bvh.num_frames();
    ensure!(counted == n && bvh.frames().count() == n && bvh.frames_mut().count() == n, "{} frames counted, of {}", counted, n);
    ensure!(bvh.frames().last().map(|f| f.as_slice().to_vec()).as_ref() == frames.last(), "the last frame is another");
    Ok(())
}

/// All the ways to use up what is left of the frames, after some steps from either end.
fn c10_consumers(ch: &mut Ch) -> Outcome {
    let max = ch.bound();
    let width = *ch.pick(&[0usize, 1, 2, 3]);
    let n = if width == 0 { 0 } else { ch.upto(max) };
    let front = ch.upto(n);
    let back = ch.upto(n - front);
    let mutable = ch.flag();
    let doc = tiny(width, n);
    let way = ch.choose(20);
    let arg = ch.choose(6) as usize;
    let mut bvh = load(&doc.text())?;
    ch.note(|| format!("{} frames of {} channels, {} taken from the front and {} from the back, mutable: {}, way {} ({})", n, width, front, back, mutable, way, arg));
    ch.traces(1);
    ch.state(hash_debug(&(n, width, front, back, mutable, way, arg)));
    let want: Vec<Vec<u32>> = doc.frames[front..n - back].iter().map(|f| vals_of(f)).collect();
    let left = want.len();
    let arg = [0, 1, 2, 3, left, usize::MAX][arg];
    let at = |i: usize| want.get(i).cloned();
    let from_end = |i: usize| if i < left { at(left - 1 - i) } else { None };
    macro_rules! consume {
        ($make:expr) => {{
            let mut it = $make;
            // Taken in turns.
            let (mut f, mut b) = (front, back);
            while f + b > 0 {
                if f > 0 {
                    it.next();
                    f -= 1;
                }
                if b > 0 {
                    it.next_back();
                    b -= 1;
                }
            }
            let one = |x: Option<Vec<u32>>| -> Vec<Vec<u32>> { x.into_iter().collect() };
            let v = |f: &[f32]| vals_of(f);
            let (got, expected): (Vec<Vec<u32>>, Vec<Vec<u32>>) = match way {
                0 => (vec![vec![it.count() as u32]], vec![vec![left as u32]]),
                1 => (one(it.last().map(|f| v(f.as_slice()))), one(from_end(0))),
                2 => (it.fold(vec![], |mut l, f| { l.push(v(f.as_slice())); l }), want.clone()),
                3 => (it.rfold(vec![], |mut l, f| { l.push(v(f.as_slice())); l }), want.iter().rev().cloned().collect()),
                4 => {
                    let mut l = vec![];
                    it.for_each(|f| l.push(v(f.as_slice())));
                    (l, want.clone())
                }
                5 => (one(it.nth(arg).map(|f| v(f.as_slice()))), one(at(arg))),
                6 => (one(it.nth_back(arg).map(|f| v(f.as_slice()))), one(from_end(arg))),
                7 => {
                    it.nth(arg);
                    (it.map(|f| v(f.as_slice())).collect(), want.iter().skip(arg.saturating_add(1)).cloned().collect())
                }
                8 => {
                    it.nth_back(arg);
                    (it.map(|f| v(f.as_slice())).collect(), want[..left.saturating_sub(arg.saturating_add(1))].to_vec())
                }
                9 => (it.skip(arg).map(|f| v(f.as_slice())).collect(), want.iter().skip(arg).cloned().collect()),
                10 => (it.take(arg).map(|f| v(f.as_slice())).collect(), want.iter().take(arg).cloned().collect()),
                11 => (it.step_by(arg.max(1)).map(|f| v(f.as_slice())).collect(), want.iter().step_by(arg.max(1)).cloned().collect()),
                12 => (it.rev().map(|f| v(f.as_slice())).collect(), want.iter().rev().cloned().collect()),
                13 => (it.rev().skip(arg).map(|f| v(f.as_slice())).collect(), want.iter().rev().skip(arg).cloned().collect()),
                14 => {
                    let sought = at(arg);
                    (one(it.find(|f| Some(v(f.as_slice())) == sought).map(|f| v(f.as_slice()))), one(sought))
                }
                15 => {
                    let sought = at(arg);
                    (vec![vec![it.position(|f| Some(v(f.as_slice())) == sought).map_or(99, |p| p as u32)]], vec![vec![if arg < left { arg as u32 } else { 99 }]])
                }
                16 => {
                    let sought = at(arg);
                    (vec![vec![it.rposition(|f| Some(v(f.as_slice())) == sought).map_or(99, |p| p as u32)]], vec![vec![if arg < left { arg as u32 } else { 99 }]])
                }
                17 => {
                    // Up to one, and then the rest.
                    let mut l = vec![];
                    it.all(|f| { l.push(v(f.as_slice())); l.len() <= arg });
                    l.extend(it.map(|f| v(f.as_slice())));
                    (l, want.clone())
                }
                18 => (it.by_ref().zip(0..arg).map(|(f, _)| v(f.as_slice())).collect(), want.iter().take(arg).cloned().collect()),
                _ => {
                    let (odd, even): (Vec<_>, Vec<_>) = it.enumerate().partition(|(i, _)| i % 2 == 1);
                    (even.into_iter().chain(odd).map(|(_, f)| v(f.as_slice())).collect(), want.iter().step_by(2).chain(want.iter().skip(1).step_by(2)).cloned().collect())
                }
            };
            ensure!(got == expected, "{:?}, expected {:?}", got, expected);
        }};
    }
    if mutable {
        consume!(bvh.frames_mut());
    } else {
        consume!(bvh.frames());
    }
    matches(&bvh, &doc)
}

pub static C10: Property = Property {
    id: "C10",
    level: "model_checking",
    rule: "one evaluation runs one history of reads or one write, and compares with a double-ended queue and a table; told apart by the history or the place",
    assumptions: &[],
    suites: &[
        Suite::new("walk", "every history of up to so many steps over the frames, mutable or not, from both ends", c10_walk).bound(5, 7),
        Suite::new("cells", "every value of every frame of 7 skeletons, through every way to read and to write it, with 8 new values and 5 old ones, of which some are no numbers", c10_cells).bound(3, 6),
        Suite::new("long", "animations of 127 to 70000 frames, walked in 5 orders, mutable or not: every frame, and the count after every step", c10_long),
        Suite::new("consumers", "after every number of steps from either end of up to so many frames, 20 ways to use up the rest, with 6 arguments", c10_consumers).bound(6, 12),
        Suite::new("foreign", "channels of wider animations", c10_foreign).bound(9, 40),
        Suite::new("all", "every frame written, from either end and alternating", c10_all).bound(20, 200),
    ],
};

// ---------------------------------------------------------------------------------------------
// C11: the skeleton

fn navigates(ch: &mut Ch, doc: &MDoc) -> Outcome {
    let mut bvh = load(&doc.text())?;
    let n = doc.joints.len();
    ch.note(|| show(&render(&doc.hierarchy_lines(), " ", " ", "\n")));
    ch.steps(n);
    ch.traces(1);
    ch.state(hash_debug(&doc.joints));
    {
        let joints: Vec<_> = bvh.joints().collect();
        ensure!(joints.len() == n, "{} joints, expected {}", joints.len(), n);
        for (i, j) in joints.iter().enumerate() {
            let want = &doc.joints[i];
            ensure!(j.index() == i, "joint {} has index {}", i, j.index());
            ensure!(j.name() == &want.name[..], "joint {} is {:?}", i, j);
            ensure!(j.is_root() == (i == 0) && j.is_child() == (i != 0), "joint {}: is_root() is {}", i, j.is_root());
            ensure!(j.parent_index() == want.parent, "joint {}: parent_index() is {:?}, expected {:?}", i, j.parent_index(), want.parent);
            let p = j.parent();
            ensure!(p.as_ref().map(|p| p.index()) == want.parent, "joint {}: parent() is {:?}, expected {:?}", i, p, want.parent);
            if let Some(p) = p {
                ensure!(p.name() == &doc.joints[p.index()].name[..], "joint {}: parent() is {:?}", i, p);
                ensure!(p == joints[p.index()], "joint {}: parent() is not the joint with its index", i);
                // The views which a view yields can be followed, too.
                ensure!(p.children().any(|c| c.index() == i), "joint {} is not among the children of its parent", i);
                let grand = doc.joints[p.index()].parent;
                ensure!(p.parent().map(|g| g.index()) == grand, "joint {}: the parent of the parent is wrong", i);
            }
            let children: Vec<usize> = j.children().map(|c| c.index()).collect();
            ensure!(children == doc.children(i), "joint {}: children are {:?}, expected {:?}", i, children, doc.children(i));
            for c in j.children() {
                ensure!(c.parent_index() == Some(i), "joint {}: child {} has parent {:?}", i, c.index(), c.parent_index());
                ensure!(c.name() == &doc.joints[c.index()].name[..], "joint {}: child {} is {:?}", i, c.index(), c);
                let grand: Vec<usize> = c.children().map(|g| g.index()).collect();
                ensure!(grand == doc.children(c.index()), "joint {}: the children of child {} are {:?}", i, c.index(), grand);
            }
            let mut it = j.children();
            for _ in 0..children.len() {
                it.next();
            }
            ensure!(it.next().is_none() && it.next().is_none(), "joint {}: more children after the end", i);
            // By name: the first one in the order of the file.
            let first = doc.joints.iter().position(|x| x.name == want.name);
            let found = bvh.joints().find_by_name(&want.name);
            ensure!(found.as_ref().map(|f| f.index()) == first, "{:?} is found at {:?}, expected {:?}", show(&want.name), found.map(|f| f.index()), first);
            // Among the children, too, and from where the iterator is.
            let among = doc.children(i).into_iter().find(|c| doc.joints[*c].name == doc.joints[n - 1].name);
            let found = j.children().find_by_name(&doc.joints[n - 1].name);
            ensure!(found.map(|f| f.index()) == among, "joint {}: a child is not found by its name", i);
            let mut it = bvh.joints();
            for _ in 0..=i {
                it.next();
            }
            let later = (i + 1..n).find(|k| doc.joints[*k].name == want.name);
            let found = it.find_by_name(&want.name);
            ensure!(found.map(|f| f.index()) == later, "{:?} is not found after joint {}", show(&want.name), i);
            let rest: Vec<usize> = it.map(|j| j.index()).collect();
            let want_rest: Vec<usize> = (later.map_or(n, |l| l + 1)..n).collect();
            ensure!(rest == want_rest, "after a search, {:?} remain, expected {:?}", rest, want_rest);
        }
        // The other ways to use the iterators, for all joints and for the children of one.
        for of in std::iter::once(None).chain([0, n / 2, n - 1].iter().map(|i| Some(*i))) {
            let want: Vec<usize> = of.map_or_else(|| (0..n).collect(), |i| doc.children(i));
            let it = || match of {
                None => bvh.joints(),
                Some(i) => joints[i].children(),
            };
            let who = of.map_or("all joints".to_string(), |i| format!("the children of joint {}", i));
            ensure!(it().count() == want.len(), "{}: count() is {}, of {}", who, it().count(), want.len());
            ensure!(it().last().map(|j| j.index()) == want.last().copied(), "{}: last() is {:?}", who, it().last());
            ensure!(it().fold(vec![], |mut l, j| { l.push(j.index()); l }) == want, "{}: fold() goes elsewhere", who);
            let len = want.len();
            for k in [0, 1, 2, len / 2, len.saturating_sub(1), len, len + 1, usize::MAX] {
                let mut i = it();
                let got = i.nth(k).map(|j| j.index());
                ensure!(got == want.get(k).copied(), "{}: nth({}) is {:?}, expected {:?}", who, k, got, want.get(k));
                let next = i.next().map(|j| j.index());
                let then = k.checked_add(1).and_then(|k| want.get(k).copied());
                ensure!(next == then, "{}: after nth({}) comes {:?}, expected {:?}", who, k, next, then);
                let skipped: Vec<usize> = it().skip(k).map(|j| j.index()).collect();
                ensure!(skipped == want.iter().skip(k).copied().collect::<Vec<_>>(), "{}: without the first {}, {:?} remain", who, k, skipped);
                let stepped: Vec<usize> = it().step_by(k.max(1)).map(|j| j.index()).collect();
                ensure!(stepped == want.iter().step_by(k.max(1)).copied().collect::<Vec<_>>(), "{}: in steps of {}: {:?}", who, k, stepped);
            }
            let mut i = it();
            for left in (0..=len).rev() {
                let (low, high) = i.size_hint();
                ensure!(low <= left && high.map_or(true, |h| h >= left), "{}: {} are left, but size_hint() is {:?}", who, left, (low, high));
                i.next();
            }
            let (low, _) = i.size_hint();
            ensure!(low == 0 && i.next().is_none(), "{}: size_hint() promises more after the end", who);
        }
        ensure!(bvh.joints().find_by_name("no such joint").is_none(), "found a joint which does not exist");
        ensure!(bvh.joints().find_by_name(b"").is_none(), "found a joint without a name");
        let root = bvh.root_joint().ok_or("no root joint")?;
        ensure!(root.index() == 0 && root == joints[0], "root_joint() is {:?}", root);
    }
    let count = bvh.joints_mut().take(n + 5).count();
    ensure!(count == n, "{} mutable joints, expected {}", count, n);
    Ok(())
}

fn c11_trees(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let doc = tree_doc(ch, n, 0);
    navigates(ch, &doc)
}
fn c11_names(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let mut doc = tree_doc(ch, n, 0);
    for j in doc.joints.iter_mut() {
        j.name = ch.pick(&[&b"a"[..], b"ab", b"b"]).to_vec();
    }
    navigates(ch, &doc)
}
/// Names which are easily mistaken for one another.
fn similar_names() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        &b"a"[..], b"A", b"ab", b"aB", b"Ab", b"ba", b"aa", b"a_b", b"a-b", b"a.b", b"a:b", b"a:B", b"1", b"01", b"1.0", b"\xc3\xa9", b"\xc3\x89",
        b"e\xcc\x81", b"\xff", b"\xfe", b"\xef\xbf\xbd", b"\xef\xbb\xbfa", b"a\x00", b"\x00a", b"a\x0bb", b"a\xc2\xa0b", b"a\xe3\x80\x80b", b"\xc5\xbf", b"s", b"S",
    ]
    .iter()
    .map(|n| n.to_vec())
    .collect();
    for len in &[8usize, 16, 23, 24, 25, 32, 64, 65, 300] {
        for at in &[0, len / 2, len - 1] {
            let mut n = vec![b'n'; *len];
            v.push(n.clone());
            n[*at] = b'm';
            v.push(n.clone());
            n[*at] = b'N';
            v.push(n);
        }
    }
    v.sort();
    v.dedup();
    v
}

fn c11_similar(ch: &mut Ch) -> Outcome {
    // Three joints with any two of the names; every name is searched.
    let names = similar_names();
    let shape = *ch.pick(&[[None, Some(0), Some(1)], [None, Some(0), Some(0)]]);
    let a = ch.upto(names.len() - 1);
    let b = ch.upto(names.len() - 1);
    let order = *ch.pick(&[[0, 1, 2], [2, 0, 1], [2, 1, 0]]);
    let mut doc = doc_of(&shape, 1, 0);
    for (j, o) in doc.joints.iter_mut().zip(&order) {
        j.name = [&names[a], &names[b], &b"other".to_vec()][*o].clone();
    }
    navigates(ch, &doc)?;
    let bvh = load(&doc.text())?;
    let mut probes = names.clone();
    for n in &[&names[a], &names[b]] {
        probes.push(n[1..].to_vec());
        probes.push(n[..n.len() - 1].to_vec());
        probes.push([&b" "[..], n].concat());
        probes.push([n, &b" "[..]].concat());
        probes.push([n, &b"\n"[..]].concat());
        probes.push([n, &b"\0"[..]].concat());
        probes.push([&n[..], n].concat());
        probes.push([&n[..], &b" other"[..]].concat());
        probes.push(n.iter().rev().copied().collect());
        probes.push(n.to_ascii_lowercase());
        probes.push(n.to_ascii_uppercase());
        probes.push(String::from_utf8_lossy(n).into_owned().into_bytes());
    }
    ch.traces(probes.len());
    for p in &probes {
        let want = doc.joints.iter().position(|j| j.name == *p);
        let got = bvh.joints().find_by_name(p).map(|j| j.index());
        ensure!(got == want, "{:?} is found at {:?}, expected {:?}", show(p), got, want);
        let want = doc.children(0).into_iter().find(|c| doc.joints[*c].name == *p);
        let got = bvh.root_joint().ok_or("no root")?.children().find_by_name(p).map(|j| j.index());
        ensure!(got == want, "{:?} is found among the children at {:?}, expected {:?}", show(p), got, want);
    }
    Ok(())
}

fn c11_ends(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let doc = skeleton(ch, n, &[0, 2], 0);
    navigates(ch, &doc)
}
fn c11_sweep(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let doc = sweep(ch, n);
    if doc.joints.len() > 1100 || doc.frames.len() > 3 {
        return Ok(());
    }
    navigates(ch, &doc)
}
fn c11_giant(ch: &mut Ch) -> Outcome {
    let mut doc = giant(ch);
    let n = doc.joints.len();
    for (i, j) in doc.joints.iter_mut().enumerate() {
        j.name = format!("j{}", i).into_bytes();
    }
    ch.note(|| format!("{} joints", n));
    ch.steps(n);
    ch.traces(1);
    ch.state(hash_debug(&doc.joints));
    let bvh = load(&unindented(&doc))?;
    let mut count = 0;
    for (i, j) in bvh.joints().enumerate() {
        let want = &doc.joints[i];
        ensure!(j.index() == i && j.name() == &want.name[..], "joint {} is {:?}", i, j);
        ensure!(j.parent_index() == want.parent, "joint {}: parent_index() is {:?}, expected {:?}", i, j.parent_index(), want.parent);
        ensure!(j.parent().map(|p| p.index()) == want.parent, "joint {}: parent() is {:?}", i, j.parent());
        ensure!(j.end_site().copied() == want.end_site && *j.offset() == want.offset, "joint {} is {:?}", i, j);
        count += 1;
    }
    ensure!(count == n, "{} joints, expected {}", count, n);
    for i in [0, 1, 2, 255, 256, 257, 32_768, 39_999, 40_000, 65_534, 65_535, 65_536, 65_537, 65_793, n - 256, n - 1] {
        let j = bvh.joints().nth(i).ok_or("no such joint")?;
        let children: Vec<usize> = j.children().map(|c| c.index()).collect();
        ensure!(children == doc.children(i), "joint {}: children are {:?}, expected {:?}", i, children, doc.children(i));
        let found = bvh.joints().find_by_name(&doc.joints[i].name).map(|f| f.index());
        ensure!(found == Some(i), "joint {} is found at {:?}", i, found);
    }
    Ok(())
}
fn c11_empty(ch: &mut Ch) -> Outcome {
    let mut bvh = [Bvh::new(), Bvh::default()][ch.choose(2) as usize].clone();
    ch.note(|| "an animation without joints".into());
    ch.traces(1);
    ch.state(0);
    ensure!(bvh.root_joint().is_none() && bvh.joints().next().is_none(), "an empty animation has joints");
    ensure!(bvh.joints_mut().next().is_none() && bvh.frames_mut().next().is_none(), "an empty animation has joints");
    ensure!(bvh.joints().find_by_name("").is_none(), "an empty animation has joints");
    matches(&bvh, &MDoc { joints: vec![], frames: vec![], frame_time: Duration::default() })
}

pub static C11: Property = Property {
    id: "C11",
    level: "model_checking",
    rule: "one evaluation loads one skeleton, and compares every relation between its joints with the tree it was made from; told apart by the skeleton",
    assumptions: &[],
    suites: &[
        Suite::new("trees", "every tree with up to so many joints", c11_trees).bound(8, 10),
        Suite::new("names", "every tree, with every assignment of 3 names", c11_names).bound(5, 6),
        Suite::new("similar", "every two out of 70 similar names, and searches for these and for variants of them", c11_similar),
        Suite::new("end-sites", "every tree, with or without an end site and channels for every joint", c11_ends).bound(4, 5),
        Suite::new("sweep", DIMENSIONS, c11_sweep).bound(60, 190),
        Suite::new("giant", "6 skeletons of more than 2^16 joints: every joint and its parent, and the children of 16 joints", c11_giant),
        Suite::new("empty", "animations without joints", c11_empty),
    ],
};

// ---------------------------------------------------------------------------------------------
// C20: whole animations

/// New values, among them zeros of both signs, infinities, subnormals, and what is no number.
struct Fresh(u32);
impl Fresh {
    fn next(&mut self) -> f32 {
        const ODD: [u32; 8] = [0x8000_0000, 0x7fc0_0000, 0x7f80_0000, 1, 0xff80_0000, 0x0000_0000, 0x807f_ffff, 0x7f7f_ffff];
        self.0 += 1;
        if self.0 % 2 == 1 {
            f32::from_bits(ODD[(self.0 / 2) as usize % ODD.len()])
        } else {
            self.0 as f32 * 0.75 + 400.0
        }
    }
    fn frame(&mut self, width: usize) -> Vec<f32> {
        (0..width).map(|_| self.next()).collect()
    }
}

fn c20_histories(ch: &mut Ch) -> Outcome {
    let start = ch.choose(5);
    let mut doc = match start {
        0 => tiny(2, 2),
        1 => small(1),
        2 => chain(2, 1, 0),
        3 => tiny(0, 0),
        _ => star(3, 1, 3),
    };
    let mut bvh = load(&doc.text())?;
    // Another animation which was copied from this one at some point.
    let mut copy: Option<(Bvh, MDoc)> = None;
    let mut hist: Vec<String> = vec![];
    let mut fresh = Fresh(0);
    for _ in 0..ch.bound() {
        let op = ch.choose(15);
        if op == 0 {
            break;
        }
        ch.steps(1);
        let width = doc.width();
        match op {
            1 | 2 => {
                let at = if op == 1 { 0 } else { doc.frames.len() };
                let f = fresh.frame(width);
                hist.push(format!("insert at {}", at));
                let mut c = bvh.frame_cursor();
                if op == 2 {
                    c.move_last();
                }
                c.try_insert_frame(&f).map_err(|e| format!("{:?}: {}", hist, e))?;
                if width > 0 {
                    doc.frames.insert(at, f);
                }
            }
            3 => {
                hist.push("insert in the middle".into());
                let at = doc.frames.len() / 2;
                let list: Vec<Vec<f32>> = (0..2).map(|_| fresh.frame(width)).collect();
                let mut c = bvh.frame_cursor();
                for _ in 0..at {
                    c.move_next();
                }
                c.try_insert_frames(&list).map_err(|e| format!("{:?}: {}", hist, e))?;
                if width > 0 {
                    for f in list.into_iter().rev() {
                        doc.frames.insert(at, f);
                    }
                }
            }
            4 | 5 => {
                let at = if op == 4 { 0 } else { doc.frames.len().saturating_sub(1) };
                hist.push(format!("remove at {}", at));
                let mut c = bvh.frame_cursor();
                if op == 5 {
                    c.move_last().move_prev();
                }
                let r = c.remove_frame().map(|_| ());
                ensure!(r.is_ok() == !doc.frames.is_empty(), "{:?}: {:?}", hist, r);
                if !doc.frames.is_empty() {
                    doc.frames.remove(at);
                }
            }
            6 => {
                hist.push("remove all".into());
                bvh.frame_cursor().remove_all_frames();
                doc.frames.clear();
            }
            7 => {
                hist.push("set the frame time".into());
                doc.frame_time += Duration::from_nanos(1_000_003);
                bvh.set_frame_time(doc.frame_time);
            }
            8 => {
                hist.push("extract".into());
                let flat = bvh.extract_frames();
                let want = doc.frames.concat();
                ensure!(same_frames(&[flat.clone()], &[want.clone()]).is_ok(), "{:?}: extracted {:?}, expected {:?}", hist, flat, want);
                doc.frames.clear();
            }
            9 => {
                hist.push("write through the frames".into());
                for (f, w) in bvh.frames_mut().zip(doc.frames.iter_mut()) {
                    let mut f = f;
                    let v = fresh.next();
                    f[0] = v;
                    w[0] = v;
                }
            }
            10 => {
                hist.push("clone".into());
                copy = Some((bvh.clone(), doc.clone()));
            }
            14 => {
                // Over an animation with other joints, other frames and another frame time.
                hist.push("copy over another".into());
                let other = match copy.take() {
                    Some((other, _)) => other,
                    None => {
                        let mut d = [small(3), tiny(1, 5)][usize::from(start == 1)].clone();
                        d.frame_time = Duration::from_millis(987);
                        load(&d.text())?
                    }
                };
                let mut other = other;
                other.clone_from(&bvh);
                copy = Some((other, doc.clone()));
            }
            11 => {
                hist.push("go on with the copy".into());
                match copy.take() {
                    None => return Ok(()),
                    Some((b, d)) => {
                        copy = Some((std::mem::replace(&mut bvh, b), std::mem::replace(&mut doc, d)));
                    }
                }
            }
            12 => {
                hist.push("write and load".into());
                let text = bvh.to_string();
                bvh = Bvh::from_bytes(&text).map_err(|e| format!("{:?}: {}", hist, e))?;
            }
            _ => {
                hist.push("insert the wrong width".into());
                let r = bvh.frame_cursor().try_insert_frame(&vec![1.0; width + 1]).is_ok();
                ensure!(!r, "{:?}: accepted", hist);
            }
        }
        matches(&bvh, &doc).map_err(|e| format!("after {:?}: {}", hist, e))?;
        if let Some((b, d)) = &copy {
            matches(b, d).map_err(|e| format!("after {:?}, the other animation: {}", hist, e))?;
        }
    }
    ch.note(|| format!("start {}: {:?}", start, hist));
    ch.traces(1);
    ch.state(hash_debug(&doc));
    Ok(())
}

/// Frame times of every magnitude, one after another.
const FRAME_TIMES: &[Duration] = &[
    Duration::from_secs(0),
    Duration::from_nanos(1),
    Duration::from_nanos(999),
    Duration::from_nanos(1_000),
    Duration::from_nanos(8_333_333),
    Duration::from_nanos(33_333_333),
    Duration::from_millis(999),
    Duration::from_nanos(999_999_999),
    Duration::from_secs(1),
    Duration::from_nanos(1_000_000_001),
    Duration::from_nanos(59_999_999_999),
    Duration::from_secs(86_400),
    Duration::from_nanos(1_000_000_000_000_001),
];

fn c20_frame_times(ch: &mut Ch) -> Outcome {
    let start = ch.choose(4);
    let mut doc = match start {
        0 => tiny(2, 2),
        1 => chain(2, 1, 0),
        2 => tiny(0, 0),
        _ => {
            let mut d = small(1);
            d.frame_time = Duration::from_secs(0);
            d
        }
    };
    let mut bvh = load(&doc.text())?;
    let mut hist = vec![];
    for _ in 0..ch.bound() {
        let k = ch.upto(FRAME_TIMES.len() + 3);
        if k == 0 {
            break;
        }
        ch.steps(1);
        match k - 1 {
            0 => {
                hist.push("write and load".to_string());
                bvh = Bvh::from_bytes(&bvh.to_string()).map_err(|e| format!("{:?}: {}", hist, e))?;
            }
            1 => {
                hist.push("copy".to_string());
                let copy = bvh.clone();
                bvh.set_frame_time(Duration::from_millis(77));
                bvh = copy;
            }
            2 => {
                hist.push("remove and insert".to_string());
                let frames = std::mem::take(&mut doc.frames);
                bvh.frame_cursor().remove_all_frames();
                bvh.frame_cursor().try_insert_frames(&frames).map_err(|e| format!("{:?}: {}", hist, e))?;
                doc.frames = frames;
            }
            t => {
                doc.frame_time = FRAME_TIMES[t - 3];
                hist.push(format!("{:?}", doc.frame_time));
                bvh.set_frame_time(doc.frame_time);
            }
        }
        ensure!(bvh.frame_time() == &doc.frame_time, "after {:?}: the frame time is {:?}", hist, bvh.frame_time());
        matches(&bvh, &doc).map_err(|e| format!("after {:?}: {}", hist, e))?;
    }
    ch.note(|| format!("start {}: {:?}", start, hist));
    ch.traces(1);
    ch.state(hash_debug(&doc));
    Ok(())
}

/// Frame times which are kept, though they cannot be written exactly.
fn c20_extreme_times(ch: &mut Ch) -> Outcome {
    let max = Duration::new(u64::MAX, 999_999_999);
    let second = |s: u64| Duration::from_secs(s);
    let times = [
        max, max - Duration::from_nanos(1), second(u64::MAX), second(u64::MAX - 1), second(1 << 63), second((1 << 63) - 1), second(1 << 53),
        second((1 << 53) + 1), second(1 << 33), second(1 << 32), second((1 << 32) - 1), second((1 << 32) + 1), second(1 << 31), second((1 << 31) - 1),
        second(1 << 24) + Duration::from_nanos(1), second(1 << 22) + Duration::from_nanos(1), Duration::from_millis(u64::MAX), Duration::from_nanos(u64::MAX),
        Duration::from_nanos(1), second(0), second(18_446_744_073), second(18_446_744_074), Duration::from_micros(u64::MAX),
    ];
    let mut doc = [tiny(2, 2), tiny(0, 0), small(1)][ch.choose(3) as usize].clone();
    let mut bvh = load(&doc.text())?;
    let mut hist = vec![];
    for _ in 0..ch.bound() {
        let k = ch.upto(times.len() + 2);
        if k == 0 {
            break;
        }
        ch.steps(1);
        if k <= times.len() {
            doc.frame_time = times[k - 1];
            bvh.set_frame_time(doc.frame_time);
            hist.push(format!("{:?}", doc.frame_time));
        } else if k == times.len() + 1 {
            let copy = bvh.clone();
            ensure!(copy == bvh, "after {:?}: a copy is not equal", hist);
            bvh.set_frame_time(Duration::from_millis(3));
            ensure!(copy != bvh || doc.frame_time == Duration::from_millis(3), "after {:?}: another frame time is equal", hist);
            bvh = copy;
            hist.push("copy".into());
        } else {
            let frames = bvh.extract_frames();
            if doc.width() > 0 {
                bvh.frame_cursor().try_insert_frames(frames.chunks(doc.width()).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
            }
            hist.push("take the frames out and in".into());
        }
        matches(&bvh, &doc).map_err(|e| format!("after {:?}: {}", hist, e))?;
    }
    ch.note(|| format!("{:?}", hist));
    ch.traces(1);
    ch.state(hash_debug(&doc.frame_time));
    Ok(())
}

/// Histories of animations with many frames.
fn c20_long(ch: &mut Ch) -> Outcome {
    const LENGTHS: &[usize] = &[63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 32_769, 65_535, 65_536, 65_537, 70_000];
    let n = *ch.pick(LENGTHS);
    let mut doc = [tiny(1, 0), make_doc(&[None, Some(0)], &[2, 1], &[false, true], 0, 0)][ch.choose(2) as usize].clone();
    let width = doc.width();
    let mut bvh = load(&doc.text())?;
    doc.frames = (0..n).map(|i| (0..width).map(|k| (i * width + k) as f32 + 0.5).collect()).collect();
    bvh.frame_cursor().try_insert_frames(&doc.frames).map_err(|e| e.to_string())?;
    let mut copy: Option<(Bvh, MDoc)> = None;
    let mut hist: Vec<&str> = vec![];
    for step in 0..ch.bound() {
        let op = ch.choose(10);
        if op == 0 {
            break;
        }
        ch.steps(1);
        match op {
            1 => {
                hist.push("extract");
                let flat = bvh.extract_frames();
                let want = doc.frames.concat();
                ensure!(flat == want, "{:?}: {} values extracted, expected {}", hist, flat.len(), want.len());
                doc.frames.clear();
            }
            2 => {
                hist.push("copy");
                copy = Some((bvh.clone(), doc.clone()));
            }
            3 => {
                hist.push("copy over another");
                let mut other = load(&small(2).text())?;
                other.clone_from(&bvh);
                copy = Some((other, doc.clone()));
            }
            4 => {
                hist.push("go on with the copy");
                match copy.take() {
                    None => return Ok(()),
                    Some((b, d)) => copy = Some((std::mem::replace(&mut bvh, b), std::mem::replace(&mut doc, d))),
                }
            }
            5 => {
                hist.push("write and load");
                bvh = Bvh::from_bytes(&bvh.to_string()).map_err(|e| format!("{:?}: {}", hist, e))?;
            }
            6 => {
                hist.push("remove the last");
                let r = bvh.frame_cursor().move_last().move_prev().remove_frame().is_ok();
                ensure!(r == doc.frames.pop().is_some(), "{:?}: removing a frame: {}", hist, r);
            }
            7 => {
                hist.push("insert at the front");
                let f: Vec<f32> = (0..width).map(|k| -(step as f32) - k as f32).collect();
                bvh.frame_cursor().try_insert_frame(&f).map_err(|e| e.to_string())?;
                doc.frames.insert(0, f);
            }
            8 => {
                hist.push("write through the frames");
                for (i, (mut f, w)) in bvh.frames_mut().zip(doc.frames.iter_mut()).enumerate() {
                    f[width - 1] = i as f32 + 0.25;
                    w[width - 1] = i as f32 + 0.25;
                }
            }
            _ => {
                hist.push("shrink, and set the frame time");
                bvh.frame_cursor().shrink_to_fit();
                doc.frame_time += Duration::from_nanos(1_000_003);
                bvh.set_frame_time(doc.frame_time);
            }
        }
        matches(&bvh, &doc).map_err(|e| format!("after {:?}: {}", hist, e))?;
        if let Some((b, d)) = &copy {
            matches(b, d).map_err(|e| format!("after {:?}, the other animation: {}", hist, e))?;
        }
    }
    ch.note(|| format!("{} frames of {}: {:?}", n, width, hist));
    ch.traces(1);
    ch.state(hash_debug(&(n, width, hist)));
    Ok(())
}

pub static C20: Property = Property {
    id: "C20",
    level: "model_checking",
    rule: "one evaluation runs one history against the library and a model of the whole animation, which are compared after every operation; states are told apart by the contents",
    assumptions: &[],
    suites: &[
        Suite::new("histories", "5 animations, every history of up to so many of 14 operations, on an animation and a copy of it", c20_histories).bound(5, 6),
        Suite::new("frame-times", "every sequence of up to so many of 13 frame times, mixed with writing and loading, copying and editing", c20_frame_times).bound(4, 5),
        Suite::new("extreme-times", "every sequence of up to so many of 23 frame times up to the greatest, mixed with copying and editing", c20_extreme_times).bound(2, 3),
        Suite::new("long", "animations of 63 to 70000 frames, every history of up to so many of 9 operations, on an animation and a copy of it", c20_long).bound(2, 3),
    ],
};

// ---------------------------------------------------------------------------------------------
// C21: equality

fn universe() -> Vec<MDoc> {
    let mut v = vec![];
    let base = make_doc(&[None, Some(0), Some(0)], &[2, 1, 1], &[false, true, true], 2, 2);
    let mut add = |f: &dyn Fn(&mut MDoc)| {
        let mut d = base.clone();
        f(&mut d);
        v.push(d);
    };
    add(&|_| {});
    add(&|d| d.joints[0].name = b"Other".to_vec());
    add(&|d| d.joints[1].name = b"Other".to_vec());
    add(&|d| d.joints[2].name = b"Neck2".to_vec());
    add(&|d| d.joints[2].name = b"Neck".to_vec());
    for j in 0..3 {
        for k in 0..3 {
            add(&move |d| d.joints[j].offset[k] += 1.5);
        }
    }
    add(&|d| d.joints[0].end_site = Some([0.0; 3]));
    add(&|d| d.joints[0].end_site = Some(d.joints[0].offset));
    for j in 1..3 {
        add(&move |d| d.joints[j].end_site = None);
        for k in 0..3 {
            add(&move |d| d.joints[j].end_site.as_mut().unwrap()[k] = 77.5);
        }
    }
    for j in 0..3 {
        add(&move |d| {
            let t = d.joints[j].channels[0];
            d.joints[j].channels[0] = if t == TYPES[0] { TYPES[5] } else { TYPES[0] };
        });
    }
    add(&|d| d.joints[0].channels.reverse());
    add(&|d| {
        // The same channels, distributed in another way.
        let c = d.joints[0].channels.pop().unwrap();
        d.joints[1].channels.insert(0, c);
    });
    add(&|d| d.joints[2].parent = Some(1));
    for f in 0..2 {
        for k in 0..4 {
            add(&move |d| d.frames[f][k] = -0.75);
        }
    }
    add(&|d| d.frames.swap(0, 1));
    add(&|d| {
        d.frames.pop();
    });
    add(&|d| d.frames.clear());
    add(&|d| {
        let f = d.frames[1].clone();
        d.frames.push(f)
    });
    add(&|d| d.frame_time += Duration::from_nanos(1));
    add(&|d| d.frame_time += Duration::from_secs(1));
    add(&|d| {
        d.joints.pop();
        d.frames.iter_mut().for_each(|f| {
            f.pop();
        })
    });
    add(&|d| {
        d.joints.push(MJoint { name: b"More".to_vec(), parent: Some(0), offset: [0.0; 3], channels: vec![], end_site: None })
    });
    v.push(tiny(0, 0));
    v.push(tiny(1, 0));
    v.push(tiny(1, 1));
    v
}

fn c21_pairs(ch: &mut Ch) -> Outcome {
    let u = universe();
    let a = ch.upto(u.len() - 1);
    let b = ch.upto(u.len() - 1);
    let how = ch.choose(4);
    ch.note(|| format!("{} and {}\n{}\n{}", a, b, show(&u[a].text()), show(&u[b].text())));
    ch.traces(1);
    ch.state(hash_debug(&(a, b, how)));
    let x = load(&u[a].text())?;
    // The same contents by another way.
    let y = match how {
        0 => load(&u[b].text())?,
        1 => load(&render(&u[b].lines(), " ", "\t", "\r\n\n"))?,
        2 => load(&u[b].text())?.clone(),
        _ => {
            // Loaded without frames, and edited.
            let mut d = u[b].clone();
            let frames = std::mem::take(&mut d.frames);
            let t = std::mem::replace(&mut d.frame_time, Duration::from_secs(9));
            let mut y = load(&d.text())?;
            y.frame_cursor().try_insert_frames(&frames).map_err(|e| e.to_string())?;
            y.set_frame_time(t);
            y
        }
    };
    let want = u[a] == u[b];
    ch.outcome(if want { "equal" } else { "different" });
    ensure!((x == y) == want, "compared as equal: {}, expected {}", x == y, want);
    ensure!((y == x) == want, "the comparison is not symmetric");
    ensure!((x != y) == !want, "!= is not the opposite of ==");
    Ok(())
}

/// Documents in which a difference may be anywhere.
fn c21_bases() -> Vec<MDoc> {
    let mut named = small(2);
    for (i, j) in named.joints.iter_mut().enumerate() {
        j.name = (0..[1, 8, 17, 33, 64, 100][i % 6]).map(|k| b'a' + ((i + k) % 26) as u8).collect();
    }
    vec![chain(20, 2, 3), star(20, 1, 3), tiny(12, 9), tiny(2, 70), tiny(70, 2), star(6, 3, 0), named]
}

/// All the documents which differ from this one in one place, the least possible there.
fn neighbours(base: &MDoc, mut f: impl FnMut(&MDoc, &str) -> Outcome) -> Outcome {
    let bit = |x: f32| f32::from_bits(x.to_bits() ^ 1);
    let mut d = base.clone();
    for j in 0..base.joints.len() {
        for k in 0..base.joints[j].name.len() {
            d.joints[j].name[k] = if d.joints[j].name[k] == b'z' { b'y' } else { b'z' };
            f(&d, &format!("byte {} of the name of joint {}", k, j))?;
            // Only its case.
            d.joints[j].name[k] = base.joints[j].name[k] ^ 0x20;
            if d.joints[j].name[k].is_ascii_alphabetic() {
                f(&d, &format!("the case of byte {} of the name of joint {}", k, j))?;
            }
            d.joints[j].name[k] = base.joints[j].name[k];
        }
        d.joints[j].name.push(b'x');
        f(&d, &format!("a longer name of joint {}", j))?;
        d.joints[j].name.pop();
        for k in 0..3 {
            d.joints[j].offset[k] = bit(base.joints[j].offset[k]);
            f(&d, &format!("the last bit of component {} of the offset of joint {}", k, j))?;
            d.joints[j].offset[k] = -base.joints[j].offset[k];
            if base.joints[j].offset[k] != 0.0 {
                f(&d, &format!("the sign of component {} of the offset of joint {}", k, j))?;
            }
            d.joints[j].offset[k] = base.joints[j].offset[k];
            if let Some(e) = base.joints[j].end_site {
                d.joints[j].end_site.as_mut().unwrap()[k] = bit(e[k]);
                f(&d, &format!("the last bit of component {} of the end site of joint {}", k, j))?;
                d.joints[j].end_site = Some(e);
            }
        }
        if base.joints[j].end_site.is_some() && !base.children(j).is_empty() {
            d.joints[j].end_site = None;
            f(&d, &format!("the end site of joint {}", j))?;
        }
        d.joints[j].end_site = base.joints[j].end_site;
        for k in 0..base.joints[j].channels.len().min(6) {
            for t in TYPES {
                if t != base.joints[j].channels[k] {
                    d.joints[j].channels[k] = t;
                    f(&d, &format!("channel {} of joint {}", k, j))?;
                }
            }
            d.joints[j].channels[k] = base.joints[j].channels[k];
        }
        if let Some(p) = base.joints[j].parent {
            // Hangs from the grandparent instead.
            if let (Some(g), true) = (base.joints[p].parent, j == base.joints.len() - 1) {
                d.joints[j].parent = Some(g);
                f(&d, &format!("the parent of joint {}", j))?;
                d.joints[j].parent = Some(p);
            }
        }
    }
    for i in 0..base.frames.len() {
        for k in 0..base.frames[i].len() {
            d.frames[i][k] = bit(base.frames[i][k]);
            f(&d, &format!("the last bit of value {} of frame {}", k, i))?;
            d.frames[i][k] = -base.frames[i][k];
            if base.frames[i][k] != 0.0 {
                f(&d, &format!("the sign of value {} of frame {}", k, i))?;
            }
            d.frames[i][k] = base.frames[i][k];
        }
        let lost = d.frames.remove(i);
        f(&d, &format!("frame {} is missing", i))?;
        d.frames.insert(i, lost.clone());
        d.frames.insert(i, lost);
        f(&d, &format!("frame {} is there twice", i))?;
        d.frames.remove(i);
    }
    for t in &[Duration::from_nanos(1), Duration::from_micros(1), Duration::from_millis(1), Duration::from_secs(1)] {
        d.frame_time = base.frame_time + *t;
        f(&d, &format!("the frame time, by {:?}", t))?;
    }
    Ok(())
}

fn c21_places(ch: &mut Ch) -> Outcome {
    let bases = c21_bases();
    let base = ch.pick(&bases);
    let how = ch.choose(2);
    let mut all = vec![];
    neighbours(base, |d, what| {
        all.push((d.clone(), what.to_string()));
        Ok(())
    })?;
    let (d, what) = &all[ch.upto(all.len() - 1)];
    ch.note(|| format!("{}: {}", what, show(&base.text())));
    ch.traces(1);
    ch.state(hash_debug(&(what, hash_bytes(&base.text()), how)));
    let x = load(&base.text())?;
    let y = if how == 0 {
        load(&d.text())?
    } else {
        // The motion is edited into a copy, where that is possible.
        let mut y = if d.joints == base.joints { x.clone() } else { load(&d.text())? };
        if d.joints == base.joints {
            let _ = edited_into(&mut y, d)?;
        }
        y
    };
    ensure!(x != y && y != x, "compared as equal: {}", what);
    ensure!(!(x == y) && !(y == x), "compared as equal: {}", what);
    ensure!(y == y.clone() && y == load(&d.text())?, "differs from its copy: {}", what);
    Ok(())
}

/// Change frames and frame time until they are those of the document.
fn edited_into(bvh: &mut Bvh, d: &MDoc) -> Outcome {
    bvh.set_frame_time(d.frame_time);
    let mut c = bvh.frame_cursor();
    c.remove_all_frames();
    c.try_insert_frames(&d.frames).map_err(|e| e.to_string())?;
    Ok(())
}

/// What the view of a joint shows of the joint itself.
fn shown(j: &bvh_anim::Joint<'_>) -> (usize, Option<usize>, Vec<u8>, Vec<u32>, Option<Vec<u32>>, Vec<(String, usize)>) {
    (
        j.index(),
        j.parent_index(),
        j.name().to_vec(),
        vals_of(j.offset()),
        j.end_site().map(|e| vals_of(e)),
        j.channels().iter().map(|c| (c.channel_type().to_string(), c.motion_index())).collect(),
    )
}

/// Views of joints and frames of two animations.
fn c21_views(ch: &mut Ch) -> Outcome {
    let u = universe();
    let a = ch.upto(u.len() - 1);
    let b = ch.upto(u.len() - 1);
    views_agree(ch, &u[a], &u[b])
}

fn c21_view_places(ch: &mut Ch) -> Outcome {
    let bases = c21_bases();
    let base = ch.pick(&bases);
    if base.frames.len() > 10 {
        return Ok(());
    }
    let mut all = vec![];
    neighbours(base, |d, _| {
        all.push(d.clone());
        Ok(())
    })?;
    let d = &all[ch.upto(all.len() - 1)];
    views_agree(ch, base, d)
}

fn views_agree(ch: &mut Ch, a: &MDoc, b: &MDoc) -> Outcome {
    ch.note(|| format!("{}\n{}", show(&a.text()), show(&b.text())));
    ch.traces(1);
    ch.state(hash_debug(&(hash_bytes(&a.text()), hash_bytes(&b.text()))));
    let (mut x, mut y) = (load(&a.text())?, load(&b.text())?);
    let alike = a.joints == b.joints;
    for j in x.joints() {
        for k in y.joints() {
            let (sj, sk) = (shown(&j), shown(&k));
            if sj != sk {
                ensure!(j != k && k != j, "the views of joints {} and {} are equal: {:?} and {:?}", j.index(), k.index(), sj, sk);
            } else if alike && j.index() == k.index() {
                ensure!(j == k && k == j, "the views of joint {} of equal skeletons differ", j.index());
            }
        }
        ensure!(x.joints().nth(j.index()).map_or(false, |k| k == j), "joint {} differs from itself", j.index());
        ensure!(x.joints().filter(|k| *k == j).count() == 1, "joint {} equals another joint", j.index());
    }
    for (i, f) in x.frames().enumerate() {
        for (k, g) in y.frames().enumerate() {
            let want = a.frames[i] == b.frames[k];
            ensure!((f == g) == want && (g == f) == want, "frames {} and {}: {:?} == {:?} is {}", i, k, f, g, f == g);
        }
    }
    let want: Vec<Vec<bool>> = a.frames.iter().map(|f| b.frames.iter().map(|g| f == g).collect()).collect();
    for (i, f) in x.frames_mut().enumerate() {
        for (k, g) in y.frames_mut().enumerate() {
            ensure!((f == g) == want[i][k], "mutable frames {} and {}: {:?} == {:?} is {}", i, k, f, g, f == g);
        }
    }
    Ok(())
}

fn c21_generated(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let a = skeleton(ch, n, &[0, 1], 1);
    let b = skeleton(ch, n, &[0, 1], 1);
    ch.note(|| format!("{:?}\n{:?}", a, b));
    ch.traces(1);
    ch.state(hash_debug(&(&a, &b)));
    let (x, y) = (load(&a.text())?, load(&b.text())?);
    ensure!((x == y) == (a == b), "compared as equal: {}, expected {}", x == y, a == b);
    Ok(())
}

pub static C21: Property = Property {
    id: "C21",
    level: "model_checking",
    rule: "one evaluation compares two animations, and their contents; told apart by the pair",
    assumptions: &["contents which are no numbers, or zeros of both signs, are left out"],
    suites: &[
        Suite::new("pairs", "all pairs of animations which differ in one place, obtained in 4 ways", c21_pairs),
        Suite::new("places", "7 larger animations, with the least possible difference at every place, loaded or edited", c21_places),
        Suite::new("views", "all pairs of animations which differ in one place: all pairs of their joints and frames", c21_views),
        Suite::new("view-places", "6 larger animations, with the least possible difference at every place: all pairs of their joints and frames", c21_view_places),
        Suite::new("generated", "all pairs of small skeletons", c21_generated).bound(2, 3),
    ],
};
