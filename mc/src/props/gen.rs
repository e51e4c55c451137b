//! Generators shared by the properties.

use crate::engine::Ch;
use crate::model::*;
use crate::spec::spec_run;
use std::time::Duration;

/// Every tree with up to `max` joints, in every combination of end sites and of a number of
/// channels per joint out of `counts`, with `frames` frames.
pub fn skeleton(ch: &mut Ch, max: usize, counts: &[usize], frames: usize) -> MDoc {
    let n = 1 + ch.upto(max - 1);
    let parents = choose_tree(ch, n);
    let mut channels = vec![];
    let mut ends = vec![];
    for _ in 0..n {
        channels.push(*ch.pick(counts));
        ends.push(ch.flag());
    }
    make_doc(&parents, &channels, &ends, frames, n)
}

/// Every tree with up to `max` joints, with end sites at the leaves.
pub fn tree_doc(ch: &mut Ch, max: usize, frames: usize) -> MDoc {
    let n = 1 + ch.upto(max - 1);
    let parents = choose_tree(ch, n);
    let leaf: Vec<bool> = (0..n).map(|i| !parents.contains(&Some(i))).collect();
    let channels: Vec<usize> = (0..n).map(|i| [3, 6, 1, 0, 2][(i + n) % 5]).collect();
    make_doc(&parents, &channels, &leaf, frames, n)
}

pub const DIMENSIONS: &str = "one dimension at a time grown step by step: depth, number of siblings, \
 bushes, combs, zigzags, brooms, the same with end sites above other joints, channels of the root and of a child, length of a name, number of frames \
 (also around 2^16 motion values), width of a frame, salt of the values; depths, siblings and channels also around 2^7, 2^8, 2^9 and 2^10";

/// Documents which are large in one dimension, of every size up to `n`.
pub fn sweep(ch: &mut Ch, n: usize) -> MDoc {
    let kind = ch.choose(18);
    let size = |ch: &mut Ch, max: usize| 1 + ch.upto(max - 1);
    match kind {
        0 => chain(size(ch, n), 1, 2),
        1 => star(size(ch, n), 1, 2),
        2 => {
            // A comb: every joint of a chain has a leaf before it goes on.
            let k = size(ch, n / 2);
            let mut parents = vec![None];
            let mut tip = 0;
            for _ in 0..k {
                parents.push(Some(tip));
                parents.push(Some(tip));
                tip = parents.len() - 1;
            }
            doc_of(&parents, 1, 2)
        }
        3 => {
            // Arms of growing length, all from the root.
            let k = size(ch, (n as f64).sqrt() as usize);
            let mut parents = vec![None];
            for arm in 0..k {
                for seg in 0..=arm {
                    let p = if seg == 0 { 0 } else { parents.len() - 1 };
                    parents.push(Some(p));
                }
            }
            doc_of(&parents, 2, 1)
        }
        4 => {
            // A complete binary tree.
            let d = ch.upto(8);
            let mut parents = vec![];
            fn grow(parents: &mut Vec<Option<usize>>, parent: Option<usize>, d: usize) {
                parents.push(parent);
                let me = parents.len() - 1;
                if d > 0 {
                    grow(parents, Some(me), d - 1);
                    grow(parents, Some(me), d - 1);
                }
            }
            grow(&mut parents, None, d.min(7));
            doc_of(&parents, 1, 1)
        }
        5 => {
            let k = ch.upto(n);
            make_doc(&[None, Some(0)], &[k, 1], &[false, true], 2, k)
        }
        6 => {
            let k = ch.upto(n);
            make_doc(&[None, Some(0), Some(1), Some(0)], &[3, k, 2, 1], &[false, false, true, true], 2, k)
        }
        7 => {
            let k = match ch.upto(n + 9) {
                k if k < n => k + 1,
                k => [127, 128, 255, 256, 257, 4096, 65_535, 65_536, 65_537, 70_000][k - n],
            };
            let mut d = small(1);
            let which = ch.upto(3);
            d.joints[which].name = (0..k).map(|i| b'a' + (i % 23) as u8).collect();
            d
        }
        8 => {
            let k = ch.upto(n);
            tiny(2, k)
        }
        9 => {
            let k = ch.upto(n);
            small(k)
        }
        10 => {
            // Around 2^16 values in all, 2^13 bytes in a line, and 2^8 and 2^12 frames.
            let (width, frames) = *ch.pick(&[
                (1, 65535), (1, 65536), (1, 65537), (2, 32767), (2, 32768), (2, 32769), (3, 21845), (3, 21846),
                (7, 9363), (2000, 3), (4095, 2), (4096, 1), (4097, 1), (65535, 1), (65536, 1), (65537, 1),
                (16384, 4), (16385, 4), (1, 255), (1, 256), (1, 257), (1, 4095), (1, 4096), (1, 4097), (1, 70001),
            ]);
            tiny(width, frames)
        }
        11 => {
            let salt = ch.upto(n);
            make_doc(&[None, Some(0), Some(0)], &[3, 2, 1], &[false, true, true], 3, salt)
        }
        12 => {
            // A chain which goes down to depth `d`, then a branch from every height `h`.
            let d = size(ch, (n as f64).sqrt() as usize);
            let h = ch.upto(d - 1);
            let mut parents: Vec<Option<usize>> = (0..=d).map(|i: usize| i.checked_sub(1)).collect();
            parents.push(Some(h));
            parents.push(Some(parents.len() - 1));
            doc_of(&parents, 1, 1)
        }
        13 => {
            // A broom: many twigs at the tip of a handle, and then a branch from every height.
            let d = size(ch, 4);
            let k = size(ch, n);
            let twig = ch.upto(1);
            let h = ch.upto(d);
            let mut parents: Vec<Option<usize>> = (0..=d).map(|i: usize| i.checked_sub(1)).collect();
            for _ in 0..k {
                parents.push(Some(d));
                for _ in 0..twig {
                    parents.push(Some(parents.len() - 1));
                }
            }
            parents.push(Some(h));
            parents.push(Some(parents.len() - 1));
            doc_of(&parents, 1, 1)
        }
        14 => {
            // Around the sizes of small integers.
            let k = *ch.pick(&[127usize, 128, 129, 130, 254, 255, 256, 257, 258, 259, 260, 300, 513, 1025]);
            match ch.choose(4) {
                0 => chain(k, 1, 1),
                1 => star(k, 1, 1),
                2 => make_doc(&[None, Some(0), Some(1), Some(0)], &[k, 3, 2, 1], &[false, false, true, true], 2, k),
                _ => make_doc(&[None, Some(0), Some(1), Some(0)], &[3, k, 2, 1], &[false, false, true, true], 2, k),
            }
        }
        15 => {
            // Deep, and then from every one of the last depths down again.
            let d = *ch.pick(&[126usize, 254, 256, 258]);
            let back = ch.upto(4);
            let mut parents: Vec<Option<usize>> = (0..=d).map(|i: usize| i.checked_sub(1)).collect();
            parents.push(Some(d - back));
            parents.push(Some(parents.len() - 1));
            parents.push(Some(1));
            doc_of(&parents, 1, 1)
        }
        16 => {
            // End sites above other joints: at every joint, or at every second or third.
            let k = size(ch, n / 2);
            let step = 1 + ch.choose(3) as usize;
            let from = ch.choose(2) as usize;
            let parents: Vec<Option<usize>> = match ch.choose(3) {
                0 => (0..k + 2).map(|i: usize| i.checked_sub(1)).collect(),
                // Every joint of a chain has a leaf before it goes on.
                1 => (0..2 * k + 1).map(|i: usize| if i % 2 == 0 { i.checked_sub(2) } else { Some(i - 1) }).collect(),
                // And after it has gone on.
                _ => (0..=k).map(|i: usize| i.checked_sub(1)).chain((1..k).rev().map(Some)).collect(),
            };
            let m = parents.len();
            let ends: Vec<bool> = (0..m).map(|i| i % step == from % step).collect();
            make_doc(&parents, &vec![1; m], &ends, 1, k)
        }
        _ => {
            // The root has an end site; it is the only joint or not.
            let k = ch.upto(3);
            let frames = ch.upto(3);
            make_doc(
                &[None, Some(0), Some(0)][..1 + k.min(2)],
                &[k, k, 1][..1 + k.min(2)],
                &[true, k % 2 == 0, true][..1 + k.min(2)],
                frames,
                k,
            )
        }
    }
}

/// Skeletons of more than 2^16 joints; they must not be indented.
pub fn giant(ch: &mut Ch) -> MDoc {
    let mut parents = vec![None];
    let grow = |parents: &mut Vec<Option<usize>>, from: usize, n: usize| {
        let mut tip = from;
        for _ in 0..n {
            parents.push(Some(tip));
            tip = parents.len() - 1;
        }
    };
    match ch.choose(3) {
        0 => {
            // Many arms with many leaves each.
            for _ in 0..259 {
                let arm = parents.len();
                parents.push(Some(0));
                for _ in 0..255 {
                    parents.push(Some(arm));
                }
            }
        }
        1 => grow(&mut parents, 0, 66_000),
        _ => {
            grow(&mut parents, 0, 40_000);
            for from in [39_999, 300, 256] {
                grow(&mut parents, from, 10_000);
            }
        }
    }
    doc_of(&parents, ch.upto(1), 1)
}

pub fn unindented(doc: &MDoc) -> Vec<u8> {
    render(&doc.lines(), "", " ", "\n")
}

pub fn doc_of(parents: &[Option<usize>], channels: usize, frames: usize) -> MDoc {
    let leaf: Vec<bool> = {
        let mut l = vec![true; parents.len()];
        for p in parents.iter().flatten() {
            l[*p] = false;
        }
        l
    };
    make_doc(parents, &vec![channels; parents.len()], &leaf, frames, parents.len())
}

/// Documents with lines which are longer than usual buffers, and with many lines.
pub fn bulky() -> Vec<MDoc> {
    let mut named = small(1);
    named.joints[1].name = (0..70_000).map(|i| b'a' + (i % 25) as u8).collect();
    let mut root = tiny(2, 1);
    root.joints[0].name = vec![b'R'; 8192];
    // Lines beyond a megabyte.
    vec![tiny(150_000, 2), tiny(9000, 2), tiny(1, 9000), named, root, tiny(20_000, 1), chain(150, 1, 1), star(700, 1, 2)]
}

/// Frame times which every way to write them in seconds can represent.
pub const FRAME_TIMES: &[u64] = &[
    0, 1, 2, 9, 10, 999, 1_000, 33_333, 1_000_000, 8_333_333, 16_666_667, 33_333_333, 33_333_334, 40_000_000,
    100_000_000, 500_000_000, 999_999_999, 1_000_000_000, 1_000_000_001, 1_500_000_000, 59_999_999_999,
    3_600_000_000_000, 86_399_999_999_999, 4_000_000_000_000_001,
];

pub fn frame_time(ch: &mut Ch) -> Duration {
    Duration::from_nanos(*ch.pick(FRAME_TIMES))
}

/// A name: any run of bytes which are no whitespace, and which does not begin with ':'.
pub fn name(ch: &mut Ch, bound: usize) -> Option<Vec<u8>> {
    let n = ch.upto(bound);
    let mut name: Vec<u8> = vec![];
    match n {
        0 => {
            let words: &[&[u8]] = &[
                b"HIERARCHY", b"ROOT", b"JOINT", b"End", b"Site", b"OFFSET", b"CHANNELS", b"MOTION", b"Frames:", b"Frame",
                b"{", b"}", b"{}", b"0", b"-1.5", b"Xposition", b"a:b", b"a::b", b"ns:a:b:", b"\xff\xfe", b"\xf0\x9f\x98\x80",
                "J\u{f6}int".as_bytes(), b"a{b", b"#", b"//", b"\"q\"", b"\0", b"a\0b", b"ROOTX", b"JOINT:", b"nan",
            ];
            name = ch.pick(words).to_vec();
        }
        1 => name.push(1 + ch.choose(255) as u8),
        _ => {
            let alphabet = b"a:{}9\x80\xff-_.A";
            for i in 0..n {
                let skip_colon = i == 0;
                let mut c = *ch.pick(alphabet);
                if skip_colon && c == b':' {
                    c = b'"';
                }
                name.push(c);
            }
        }
    }
    if name.iter().any(|b| b.is_ascii_whitespace() || *b == 0x0b) || name.starts_with(b":") {
        return None;
    }
    // Whitespace beyond ASCII is not part of the format.
    if let Ok(s) = std::str::from_utf8(&name) {
        if s.chars().any(|c| c.is_whitespace()) {
            return None;
        }
    }
    Some(name)
}

// ---------------------------------------------------------------------------------------------
// Sequences of lines

pub const ALPHABET: &[&str] = &[
    "HIERARCHY",
    "ROOT a",
    "ROOT",
    "JOINT b",
    "JOINT",
    "JOINT : c:d e",
    "End Site",
    "End",
    "End Sites",
    "{",
    "}",
    "OFFSET 1 2 3",
    "OFFSET 4 5",
    "OFFSET 6 x 7",
    "OFFSET",
    "CHANNELS 1 Xposition",
    "CHANNELS 2 Zrotation Yposition",
    "CHANNELS 0",
    "CHANNELS",
    "CHANNELS x Xposition",
    "CHANNELS 1 Foo",
    "MOTION",
    "Frames: 1",
    "Frames: 0",
    "Frames: x",
    "Frames:",
    "Frame Time: 0.5",
    "Frame Time: -1",
    "Frame Time: x",
    "Frame Time:",
    "1 2",
    "3",
    "4 y",
    "",
    "junk 1",
];

/// Where a sequence of lines begins.
pub const CONTEXTS: &[&str] = &[
    "",
    "HIERARCHY\n",
    "HIERARCHY\nROOT a\n",
    "HIERARCHY\nROOT a\n{\n",
    "HIERARCHY\nROOT a\n{\nOFFSET 1 2 3\nCHANNELS 1 Xposition\n",
    "HIERARCHY\nROOT a\n{\nEnd Site\n",
    "HIERARCHY\nROOT a\n{\nEnd Site\n{\n",
    "HIERARCHY\nROOT a\n{\nEnd Site\n{\nOFFSET 7 8 9\n}\n",
    "HIERARCHY\nROOT a\n{\nJOINT b\n",
    "HIERARCHY\nROOT a\n{\nJOINT b\n{\nOFFSET 1 2 3\nCHANNELS 1 Xposition\n",
    "HIERARCHY\nROOT a\n{\nJOINT b\n{\nCHANNELS 1 Xposition\n}\n",
    "HIERARCHY\nROOT a\n{\nJOINT b\n{\nJOINT c\n{\nEnd Site\n{\nOFFSET 7 8 9\n",
    "HIERARCHY\nROOT a\n{\nJOINT b\n{\nJOINT c\n{\nEnd Site\n{\nOFFSET 7 8 9\n}\n}\n",
    "HIERARCHY\nROOT a\n{\nCHANNELS 1 Xposition\n}\n",
    "HIERARCHY\nROOT a\n{\nCHANNELS 1 Xposition\n}\nMOTION\n",
    "HIERARCHY\nROOT a\n{\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 2\n",
    "HIERARCHY\nROOT a\n{\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 2\nFrame Time: 0.1\n",
    "HIERARCHY\nROOT a\n{\nCHANNELS 2 Xposition Yposition\n}\nMOTION\nFrames: 2\nFrame Time: 0.1\n1\n",
];

/// Append up to `depth` lines of the alphabet. A document which is rejected whatever follows is
/// only extended by one more line.
pub fn line_sequence(ch: &mut Ch, start: &str, alphabet: &[&str], depth: usize) -> Vec<u8> {
    let mut text = start.as_bytes().to_vec();
    for _ in 0..depth {
        let c = ch.choose(alphabet.len() as u32 + 1) as usize;
        if c == 0 {
            break;
        }
        text.extend_from_slice(alphabet[c - 1].as_bytes());
        text.push(b'\n');
        if !spec_run(&text).1 {
            break;
        }
    }
    text
}

/// The rest of a document, for a hierarchy which has some bodies open.
pub fn tail(ch: &mut Ch, text: &mut Vec<u8>) {
    let c = ch.choose(6) as usize;
    if c == 0 {
        return;
    }
    for _ in 1..c {
        text.extend_from_slice(b"}\n");
    }
    text.extend_from_slice(b"MOTION\nFrames: 1\nFrame Time: 0.25\n");
    if let Err(crate::spec::Diag::Count { expected, .. }) = crate::spec::spec_load(text) {
        for i in 0..expected {
            text.extend_from_slice(format!("{} ", i + 1).as_bytes());
        }
        text.push(b'\n');
    }
}

/// The lines which build the hierarchy.
pub const STRUCTURE: &[&str] =
    &["{", "}", "JOINT b", "End Site", "OFFSET 1 2 3", "CHANNELS 1 Yrotation", "CHANNELS 0"];

/// Valid documents to damage.
pub fn victims() -> Vec<Vec<u8>> {
    let mut two = small(2);
    two.joints[1].name = b"a:b".to_vec();
    vec![
        tiny(1, 2).text(),
        two.text(),
        render(&chain(3, 0, 0).lines(), "  ", " ", "\r\n"),
        render(&star(3, 2, 1).lines(), "", "\t", "\n"),
    ]
}
