//! Numbers, names, and the ways to load and to write.

use super::gen::*;
use super::io::Opts;
use crate::engine::*;
use crate::model::*;
use crate::spec::*;
use bvh_anim::write::{IndentStyle, LineTerminator, WriteOptions};
use bvh_anim::{Axis, Bvh, Channel, ChannelType};
use std::convert::TryFrom;
use std::io::Cursor;
use std::time::Duration;

// ---------------------------------------------------------------------------------------------
// C16

const PLACES: &[&str] = &["offset x", "offset y", "offset z", "child offset", "end site", "motion", "frame time", "frames", "channels"];

fn numeral_doc(place: usize, s: &str) -> String {
    let n = |p: usize, d: &str| if p == place { s.to_string() } else { d.to_string() };
    format!(
        "HIERARCHY\nROOT a\n{{\nOFFSET {} {} {}\nCHANNELS {} Xposition\nJOINT b\n{{\nOFFSET 5 {} 6\nEnd Site\n{{\nOFFSET 7 8 {}\n}}\n}}\n}}\nMOTION\nFrames: {}\nFrame Time: {}\n1.5\n{}\n",
        n(0, "1"), n(1, "2"), n(2, "3"), n(8, "1"), n(3, "4"), n(4, "9"), n(7, "2"), n(6, "0.1"), n(5, "2.5"),
    )
}

/// Load a document with the numeral in the place, and compare with the standard library.
fn numeral(ch: &mut Ch, place: usize, s: &str) -> Outcome {
    let text = numeral_doc(place, s);
    ch.note(|| format!("{:?} as {}", s, PLACES[place]));
    ch.traces(1);
    let got = Bvh::from_bytes(&text);
    let bits = |v: f32| if v.is_nan() { f32::NAN.to_bits() } else { v.to_bits() };
    if place == 8 {
        // The number is not used, but it must be one.
        let want: Option<usize> = s.parse().ok();
        ch.outcome(if want.is_some() { "accepted" } else { "rejected" });
        return match (got, want) {
            (Ok(_), Some(_)) => Ok(()),
            (Err(e), None) => {
                let d = diag_of(e);
                ensure!(d == Diag::NumChannels(true, 4), "{:?} as a number of channels is diagnosed as {:?}", s, d);
                Ok(())
            }
            (Ok(_), None) => Err(format!("{:?} is accepted as a number of channels", s)),
            (Err(e), Some(w)) => Err(format!("{:?} as a number of channels is rejected: {}, expected {:?}", s, e, w)),
        };
    }
    if place == 7 {
        let want: Option<usize> = s.parse().ok();
        ch.outcome(if want == Some(2) { "accepted" } else { "rejected" });
        return match got {
            Ok(_) => {
                ensure!(want == Some(2), "{:?} is read as 2", s);
                Ok(())
            }
            Err(e) => match (diag_of(e), want) {
                (Diag::NumFrames(true, _), None) => Ok(()),
                (Diag::Count { frames, .. }, Some(w)) if frames == w && w != 2 => Ok(()),
                (d, _) => Err(format!("{:?} is diagnosed as {:?}, expected {:?}", s, d, want)),
            },
        };
    }
    if place == 6 {
        let want = s.parse::<f64>().ok().map(Duration::try_from_secs_f64);
        return match (got, want) {
            (Ok(b), Some(Ok(d))) => {
                ch.outcome("accepted");
                ensure!(*b.frame_time() == d, "{:?} is read as {:?}, expected {:?}", s, b.frame_time(), d);
                Ok(())
            }
            (Err(e), w @ (None | Some(Err(_)))) => {
                ch.outcome("rejected");
                let d = diag_of(e);
                ensure!(matches!(d, Diag::FrameTime(p, _) if p == w.is_none()), "{:?} is diagnosed as {:?}", s, d);
                Ok(())
            }
            (Ok(b), w) => Err(format!("{:?} is read as {:?}, expected {:?}", s, b.frame_time(), w)),
            (Err(e), w) => Err(format!("{:?} is rejected: {}, expected {:?}", s, e, w)),
        };
    }
    let want: Option<f32> = s.parse().ok();
    match (got, want) {
        (Ok(b), Some(w)) => {
            ch.outcome("accepted");
            let j: Vec<_> = b.joints().collect();
            let f: Vec<f32> = b.frames().flat_map(|f| f.as_slice().to_vec()).collect();
            ensure!(j.len() == 2 && f.len() == 2, "the document is read in another way");
            let all = [j[0].offset()[0], j[0].offset()[1], j[0].offset()[2], j[1].offset()[1], j[1].end_site().ok_or("no end site")?[2], f[1]];
            let default = [1.0, 2.0, 3.0, 4.0, 9.0, 2.5];
            for p in 0..6 {
                let expected = if p == place { w } else { default[p] };
                ensure!(bits(all[p]) == bits(expected), "{:?} as {}: {} is read as {:?}, expected {:?}", s, PLACES[place], PLACES[p], all[p], expected);
            }
            Ok(())
        }
        (Err(e), None) => {
            ch.outcome("rejected");
            let d = diag_of(e);
            let ok = match place {
                0 => d == Diag::Offset(Axis::X, 3),
                1 => d == Diag::Offset(Axis::Y, 3),
                2 => d == Diag::Offset(Axis::Z, 3),
                3 => d == Diag::Offset(Axis::Y, 7),
                4 => d == Diag::Offset(Axis::Z, 10),
                _ => d == Diag::MotionValue { column: 0, line: 18 },
            };
            ensure!(ok, "{:?} as {} is diagnosed as {:?}", s, PLACES[place], d);
            Ok(())
        }
        (Ok(_), None) => Err(format!("{:?} is accepted as {}", s, PLACES[place])),
        (Err(e), Some(w)) => Err(format!("{:?} as {} is rejected: {}, expected {:?}", s, PLACES[place], e, w)),
    }
}

fn c16_strings(ch: &mut Ch) -> Outcome {
    let n = 1 + ch.upto(ch.bound() - 1);
    let mut s = String::new();
    for _ in 0..n {
        s.push(*ch.pick(b"019.-+eEinfaN") as char);
    }
    for place in [0, 5, 6, 7, 8] {
        numeral(ch, place, &s)?;
    }
    ch.state(hash_bytes(s.as_bytes()));
    Ok(())
}

const NUMERALS: &[&str] = &[
    "0", "-0", "+1", "1.", ".5", "-.5", "1e3", "1E-3", "1e+2", "0.1", "0.3", "16777217", "16777219", "33554435", "1e10",
    "3.4028235e38", "3.4028236e38", "3.4028235677973366e38", "3.4028235677973365e38", "3.5e38", "1e39", "-1e39", "1e-45", "7e-46", "7.1e-46",
    "1.4e-45", "1.1754944e-38", "1.1754942e-38", "inf", "-inf", "+infinity", "nan", "NaN", "1e400", "1e-400", "1e2147483647", "1e2147483648", "1e-2147483648", "1e-2147483649", "1e4294967296", "1e4294967297", "1e-4294967295", "1e-4294967297",
    "1e9223372036854775807", "1e9223372036854775808", "1e-9223372036854775808", "1e-9223372036854775809", "1e18446744073709551615", "1e18446744073709551617",
    "1e-18446744073709551615", "1e-18446744073709551617", "0e18446744073709551617", "1e65537", "1e-65535", "1e257", "1e-255", "123456789", "1.00000005960464477539",
    "1.000000059604644775390625", "1.0000000596046447753906251", "0.000000000000000000000000000000000000000000001", "1e", "e1", "1e+", ".", "-", "+",
    "", "1x", "0x1", "1_0", "1,0", "++1", "1.2.3", "1e1.5", "\u{661}", "2", "02", "+2", "2.0", "-2", "18446744073709551615", "18446744073709551616",
    "33.333333333333336", "0.0333333", "0.008333333", "1e-9", "4e-10", "5e-10", "6e-10", "0.9999999999", "0.99999999949", "0.9999999995",
    "18446744073709551615.5", "1.8446744073709550e19", "1.8446744073709552e19", "9007199254740993", "0.1000000000000000055511151231257827",
];

/// The numerals in every place of large documents, in turns.
fn c16_everywhere(ch: &mut Ch) -> Outcome {
    let good: Vec<&str> = NUMERALS.iter().copied().filter(|s| s.parse::<f32>().is_ok()).collect();
    let shift = ch.upto(good.len() - 1);
    let shape = ch.choose(7);
    let mut k = shift;
    let mut next = || {
        k += 1;
        good[k % good.len()]
    };
    let mut text = String::from("HIERARCHY\nROOT r\n{\n");
    let mut offsets: Vec<[f32; 3]> = vec![];
    let mut ends: Vec<Option<[f32; 3]>> = vec![];
    let mut values: Vec<f32> = vec![];
    let mut three = |text: &mut String| -> [f32; 3] {
        let t = [next(), next(), next()];
        text.push_str(&format!("OFFSET {} {} {}\n", t[0], t[1], t[2]));
        let v = |i: usize| t[i].parse::<f32>().unwrap();
        [v(0), v(1), v(2)]
    };
    offsets.push(three(&mut text));
    ends.push(None);
    let joints = [1, 1, 1, 1, 300, 1100, 120][shape as usize];
    let width = [1usize, 3, 64, 4097, 1, 1, 3][shape as usize];
    text.push_str(&format!("CHANNELS {}{}\n", width, " Xposition".repeat(width)));
    let deep = shape != 5;
    for _ in 1..joints {
        text.push_str("JOINT j\n{\n");
        offsets.push(three(&mut text));
        if deep {
            ends.push(None);
        } else {
            text.push_str("End Site\n{\n");
            ends.push(Some(three(&mut text)));
            text.push_str("}\n}\n");
        }
    }
    if deep {
        text.push_str(&"}\n".repeat(joints));
    } else {
        text.push_str("}\n");
    }
    let frames = if joints > 1 { 2 } else { 70_000 / width };
    text.push_str(&format!("MOTION\nFrames: {}\nFrame Time: 1\n", frames));
    for _ in 0..frames {
        for c in 0..width {
            let t = next();
            values.push(t.parse().unwrap());
            text.push_str(t);
            text.push(if c + 1 == width { '\n' } else { ' ' });
        }
    }
    ch.note(|| format!("{} joints, {} channels, {} frames, numerals from {}", joints, width, frames, good[shift]));
    ch.state(hash_debug(&(shape, shift)));
    ch.steps(values.len() + offsets.len());
    ch.traces(2);
    let mut bvh = load(text.as_bytes())?;
    for pass in 0..2 {
        let mut count = 0;
        for (i, j) in bvh.joints().enumerate() {
            ensure!(i < joints, "too many joints");
            for a in 0..3 {
                ensure!(same_f32(j.offset()[a], offsets[i][a]), "pass {}: offset {} of joint {} is {:?}, expected {:?}", pass, a, i, j.offset()[a], offsets[i][a]);
            }
            match (j.end_site(), ends[i]) {
                (None, None) => {}
                (Some(e), Some(w)) => ensure!((0..3).all(|a| same_f32(e[a], w[a])), "pass {}: the end site of joint {} is {:?}, expected {:?}", pass, i, e, w),
                (e, w) => return Err(format!("pass {}: the end site of joint {} is {:?}, expected {:?}", pass, i, e, w)),
            }
            count += 1;
        }
        ensure!(count == joints, "pass {}: {} joints, expected {}", pass, count, joints);
        let mut k = 0;
        for f in bvh.frames() {
            for v in f.as_slice() {
                ensure!(k < values.len() && same_f32(*v, values[k]), "pass {}: value {} is {:?}, expected {:?}", pass, k, v, values.get(k));
                k += 1;
            }
        }
        ensure!(k == values.len(), "pass {}: {} values, expected {}", pass, k, values.len());
        if pass == 0 {
            bvh = load(&bvh.to_string())?;
        }
    }
    Ok(())
}

fn c16_places(ch: &mut Ch) -> Outcome {
    let s = *ch.pick(NUMERALS);
    let place = ch.choose(PLACES.len() as u32) as usize;
    ch.state(hash_debug(&(s, place)));
    if s.is_empty() || !s.is_ascii() {
        return Ok(());
    }
    numeral(ch, place, s)
}

/// Numerals with one byte more or another one, or with two bytes more at the end or at the beginning.
fn c16_damaged(ch: &mut Ch) -> Outcome {
    let base = *ch.pick(&["2", "-1.5", "+2", "1e3", "1.5e-3", "2E+0", "inf", "nan", "-infinity", ".5", "2.", "0012"]);
    let mut s = base.as_bytes().to_vec();
    let byte = |ch: &mut Ch| 0x21 + ch.choose(0x5e) as u8;
    match ch.choose(4) {
        0 => {
            let at = ch.upto(s.len());
            s.insert(at, byte(ch));
        }
        1 => {
            let at = ch.upto(s.len() - 1);
            s[at] = byte(ch);
        }
        2 => s.extend([byte(ch), byte(ch)]),
        _ => {
            s.insert(0, byte(ch));
            s.insert(0, byte(ch));
        }
    }
    let s = String::from_utf8(s).unwrap();
    if s.contains(':') {
        return Ok(());
    }
    ch.state(hash_bytes(s.as_bytes()));
    for place in [0, 4, 5, 6, 7, 8] {
        numeral(ch, place, &s)?;
    }
    Ok(())
}

/// Numerals of every length.
fn c16_long(ch: &mut Ch) -> Outcome {
    const SIZES: &[usize] = &[511, 512, 513, 767, 768, 769, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65_535, 65_536, 65_537, 100_000];
    let k = ch.upto(ch.bound() + SIZES.len());
    let k = if k > ch.bound() { SIZES[k - ch.bound() - 1] } else { k };
    let z = "0".repeat(k);
    let neg = ch.flag();
    let places = PLACES.len() as u32;
    let s = match ch.choose(27) {
        0 => format!("{}12.5", z),
        1 => format!("12.5{}", z),
        2 => format!("12.{}5", z),
        3 => format!("0.{}25e{}", z, k + 1),
        4 => format!("25{}e-{}", z, k + 1),
        5 => format!("1e{}2", z),
        6 => format!("1e-{}2", z),
        7 => format!("{}2", z),
        8 => format!("0.{}", "3".repeat(k + 1)),
        9 => format!("{}e-{}", "7".repeat(k + 1), k),
        // Just above halfway between two numbers.
        10 => format!("1.000000059604644775390625{}1", z),
        11 => format!("1.000000059604644775390625{}", z),
        12 => format!("0.{}{}", "123456789".repeat(k / 9), &"123456789"[..k % 9]),
        13 => format!("16777217{}e-{}", z, k),
        14 => format!("16777219{}1e-{}", z, k + 1),
        15 => format!("9007199254740993{}e-{}", z, k + 9),
        16 => format!("9007199254740993{}1e-{}", z, k + 10),
        17 => format!("1.00000000000000011102230246251565404236316680908203125{}1", z),
        // A subnormal number with all its digits, again and again.
        18 => format!("0.{}{}", "0".repeat(k % 47), "49406564584124654417656879286822137236505980".repeat(k / 44 + 1)),
        19 => format!("1e{}", "9".repeat(k + 1)),
        20 => format!("1e-{}", "9".repeat(k + 1)),
        21 => format!("0e{}", "9".repeat(k + 1)),
        22 => format!("0.0e-{}", "9".repeat(k + 1)),
        23 => format!("{}e-{}1", "9".repeat(k + 1), "0".repeat(k)),
        24 => format!("0.{}1e{}", z, usize::MAX as u128 - 10 + k as u128 % 20),
        25 => format!("1{}e-{}", z, usize::MAX as u128 - 10 + k as u128 % 20),
        _ => format!("{}x", z),
    };
    let s = if neg { format!("-{}", s) } else { s };
    let place = ch.choose(places) as usize;
    ch.state(hash_debug(&(&s, place)));
    numeral(ch, place, &s)
}

/// Write the values as motion values and offsets, and read them back.
fn bits_survive(ch: &mut Ch, values: &[f32]) -> Outcome {
    const WIDTH: usize = 64;
    let mut bvh = load(&tiny(WIDTH, 0).text())?;
    let mut padded = values.to_vec();
    while padded.len() % WIDTH != 0 {
        padded.push(0.0);
    }
    bvh.frame_cursor().try_insert_frames(padded.chunks(WIDTH)).map_err(|e| e.to_string())?;
    let text = bvh.to_string();
    let again = load(&text)?;
    let mut n = 0;
    for f in again.frames() {
        for v in f.as_slice() {
            let w = padded[n];
            ensure!(same_f32(*v, w), "{:?} (0x{:08x}) comes back as {:?} (0x{:08x})", w, w.to_bits(), v, v.to_bits());
            n += 1;
        }
    }
    ensure!(n == padded.len(), "{} values come back, of {}", n, padded.len());
    ch.steps(n);
    ch.traces(1);
    Ok(())
}

fn c16_bits(ch: &mut Ch) -> Outcome {
    // Every sign and exponent, with structured or (thorough) with all mantissas.
    let high = ch.choose(512) << 23;
    let mut values = Vec::with_capacity(1 << 12);
    if ch.thorough() {
        let block = ch.choose(1 << 11) << 12;
        values.extend((0..1u32 << 12).map(|m| f32::from_bits(high | block | m)));
    } else {
        match ch.choose(3) {
            0 => values.extend((0..1u32 << 11).map(|m| f32::from_bits(high | m))),
            1 => values.extend((0..1u32 << 11).map(|m| f32::from_bits(high | m << 12))),
            _ => values.extend((0..1u32 << 11).map(|m| f32::from_bits(high | (0x7f_ffff - m)))),
        }
    }
    ch.note(|| format!("{} values from {:?}", values.len(), values[0]));
    ch.state(hash_debug(&values[0].to_bits()));
    bits_survive(ch, &values)
}

fn c16_midpoints(ch: &mut Ch) -> Outcome {
    // Numerals exactly between two numbers, and next to that.
    let exp = ch.choose(255);
    let man = *ch.pick(&[0u32, 1, 2, 3, 0x2a_aaaa, 0x55_5555, 0x3f_ffff, 0x40_0000, 0x7f_fffe, 0x7f_ffff, 0x12_3456, 0x6e_dcba]);
    let lo = f32::from_bits(exp << 23 | man);
    let hi = f32::from_bits((exp << 23 | man) + 1);
    let mid = if hi.is_finite() { (lo as f64 + hi as f64) / 2.0 } else { lo as f64 * 1.0000000298023224 };
    // All its digits.
    let exact = format!("{:.200e}", mid);
    let (digits, e) = exact.split_once('e').unwrap();
    let trimmed = digits.trim_end_matches('0');
    let which = ch.choose(4);
    let s = match which {
        0 => format!("{}e{}", trimmed, e),
        1 => format!("{}0000000000000001e{}", trimmed, e),
        2 => {
            // One less in the last digit, then nines.
            let mut b = trimmed.as_bytes().to_vec();
            let last = b.pop().unwrap();
            if last == b'.' {
                return Ok(());
            }
            b.push(last - 1);
            format!("{}9999999999999999999e{}", String::from_utf8(b).unwrap(), e)
        }
        _ => format!("{:.170}", mid),
    };
    let neg = ch.flag();
    let s = if neg { format!("-{}", s) } else { s };
    ch.state(hash_bytes(s.as_bytes()));
    numeral(ch, 5, &s)?;
    numeral(ch, 1, &s)
}

fn c16_times(ch: &mut Ch) -> Outcome {
    // Numerals of frame times with up to 12 decimals.
    let digits = ch.upto(ch.bound());
    let int = *ch.pick(&["0", "", "1", "59", "3600", "1000000"]);
    let mut s = int.to_string();
    if digits > 0 {
        s.push('.');
        let style = ch.choose(6);
        for i in 0..digits {
            s.push(match style {
                0 => '3',
                1 => '9',
                2 => if i + 1 == digits { '5' } else { '0' },
                3 => if i == 0 { '5' } else { '4' },
                4 => b"1234567890"[i % 10] as char,
                _ => if i + 1 == digits { '1' } else { '9' },
            });
        }
    }
    if s.is_empty() {
        return Ok(());
    }
    ch.state(hash_bytes(s.as_bytes()));
    numeral(ch, 6, &s)
}

pub static C16: Property = Property {
    id: "C16",
    level: "model_checking",
    rule: "one evaluation reads one numeral in one or more places, or writes and reads back a block of numbers; told apart by the numeral or the first number",
    assumptions: &["the standard library reads numbers with correct rounding"],
    suites: &[
        Suite::new("strings", "every string of up to so many of 13 characters, as an offset, a motion value, a frame time and a number of frames", c16_strings).bound(5, 6),
        Suite::new("damaged", "12 numerals with any byte inserted or replaced, or any two bytes before or after, in 6 places", c16_damaged),
        Suite::new("places", "98 numerals, from limits of the formats, in 9 places", c16_places),
        Suite::new("everywhere", "the numerals among these which are numbers, in turns in every place of 7 documents with up to 70000 values or 1100 joints, also written and read back", c16_everywhere),
        Suite::new("long", "numerals of 27 kinds and every length up to so many digits, and of lengths up to 100000, in 9 places", c16_long).bound(330, 1100),
        Suite::new("bits", "numbers of every sign and exponent, with structured mantissas (quick) or with all mantissas (thorough), written and read back", c16_bits),
        Suite::new("midpoints", "numerals exactly between two numbers and next to that, for every exponent", c16_midpoints),
        Suite::new("times", "numerals of frame times, with up to so many decimals", c16_times).bound(24, 60),
    ],
};

// ---------------------------------------------------------------------------------------------
// C17

fn c17_table(ch: &mut Ch) -> Outcome {
    let t = *ch.pick(&TYPES);
    ch.note(|| format!("{:?}", t));
    ch.traces(1);
    ch.state(hash_debug(&t));
    let (name, axis, vector, letter, rotation) = match t {
        ChannelType::PositionX => ("Xposition", Axis::X, [1.0, 0.0, 0.0], "x", false),
        ChannelType::PositionY => ("Yposition", Axis::Y, [0.0, 1.0, 0.0], "y", false),
        ChannelType::PositionZ => ("Zposition", Axis::Z, [0.0, 0.0, 1.0], "z", false),
        ChannelType::RotationX => ("Xrotation", Axis::X, [1.0, 0.0, 0.0], "x", true),
        ChannelType::RotationY => ("Yrotation", Axis::Y, [0.0, 1.0, 0.0], "y", true),
        ChannelType::RotationZ => ("Zrotation", Axis::Z, [0.0, 0.0, 1.0], "z", true),
    };
    ensure!(t.as_str() == name && t.to_string() == name, "{:?} is written as {}", t, t);
    ensure!(t.axis() == axis, "{:?} has axis {:?}", t, t.axis());
    ensure!(t.axis().vector() == vector, "{:?} has the vector {:?}", axis, t.axis().vector());
    ensure!(t.axis().to_string() == letter, "{:?} is shown as {}", axis, t.axis());
    ensure!(t.is_rotation() == rotation && t.is_position() != rotation, "{:?}: is_rotation() is {}", t, t.is_rotation());
    ensure!(Axis::X < Axis::Y && Axis::Y < Axis::Z, "the axes are not ordered");
    // Through a document.
    let mut doc = tiny(1, 1);
    doc.joints[0].channels = vec![t];
    let b = load(&doc.text())?;
    let c: Channel = b.joints().next().ok_or("no joint")?.channels()[0];
    ensure!(c.channel_type() == t && c.motion_index() == 0, "{:?} is loaded as {:?}", t, c);
    let (term, text, escaped) = if rotation { (LineTerminator::Windows, "\r\n", "\\r\\n") } else { (LineTerminator::Unix, "\n", "\\n") };
    ensure!(term.as_str() == text && term.to_string() == text && term.as_bytes() == text.as_bytes(), "{:?} is {:?}", term, term.as_str());
    ensure!(term.as_escaped_str() == escaped && term.as_escaped_bytes() == escaped.as_bytes(), "{:?} is {:?}", term, term.as_escaped_str());
    Ok(())
}

fn parse_channel(ch: &mut Ch, s: &[u8]) -> Outcome {
    ch.note(|| show(s));
    ch.traces(1);
    ch.state(hash_bytes(s));
    let want = channel_type(s);
    ch.outcome(if want.is_some() { "a channel" } else { "no channel" });
    let mut got = vec![ChannelType::from_bytes(s), ChannelType::try_from(s)];
    if let Ok(u) = std::str::from_utf8(s) {
        got.push(u.parse::<ChannelType>());
        got.push(ChannelType::try_from(u));
        got.push(ChannelType::from_bytes(u));
    }
    for (i, g) in got.into_iter().enumerate() {
        match (g, want) {
            (Ok(t), Some(w)) if t == w => {}
            (Err(e), None) => {
                let shown = e.to_string();
                ensure!(!shown.is_empty(), "no message");
                let back = e.into_inner();
                ensure!(back == s, "way {}: the error holds {:?}", i, show(&back));
            }
            (g, w) => return Err(format!("way {}: {:?} is read as {:?}, expected {:?}", i, show(s), g.ok(), w)),
        }
    }
    Ok(())
}

fn c17_edits(ch: &mut Ch) -> Outcome {
    // Every name with one or two bytes replaced, inserted or deleted.
    let name = type_name(*ch.pick(&TYPES)).as_bytes();
    let mut s = name.to_vec();
    for _ in 0..2 {
        let op = ch.dev(4);
        if op == 0 {
            break;
        }
        let at = ch.upto(s.len());
        let alphabet: Vec<u8> = if ch.thorough() || ch.devs_left() + 1 == 2 {
            (0..=255).collect()
        } else {
            b"XYZxyzprot \x00".to_vec()
        };
        match op {
            1 => {
                let b = *ch.pick(&alphabet);
                s.insert(at, b)
            }
            2 if at < s.len() => s[at] = *ch.pick(&alphabet),
            3 if at < s.len() => {
                s.remove(at);
            }
            _ => return Ok(()),
        }
    }
    parse_channel(ch, &s)
}

fn c17_short(ch: &mut Ch) -> Outcome {
    let n = ch.upto(ch.bound());
    let mut s = vec![];
    for _ in 0..n {
        s.push(ch.choose(256) as u8);
    }
    parse_channel(ch, &s)
}

fn c17_long(ch: &mut Ch) -> Outcome {
    // A name with a run of one byte before it, within it or after it.
    let name = type_name(*ch.pick(&TYPES)).as_bytes();
    let at = ch.upto(name.len());
    const SIZES: &[usize] = &[255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65_535, 65_536, 70_000];
    let n = ch.upto(ch.bound() + SIZES.len());
    let n = if n > ch.bound() { SIZES[n - ch.bound() - 1] } else { n };
    let b = *ch.pick(b"Xn \x00\x80\xff");
    let mut s = name.to_vec();
    s.splice(at..at, std::iter::repeat(b).take(n));
    parse_channel(ch, &s)?;
    // In a document, the error holds the whole of it, too.
    if s.iter().any(|b| b.is_ascii_whitespace()) {
        return Ok(());
    }
    let text = [&b"HIERARCHY\nROOT a\n{\nCHANNELS 2 Xposition "[..], &s, b"\n}\nMOTION\nFrames: 0\nFrame Time: 1\n"].concat();
    let got = Bvh::from_bytes(&text).map(|b| b.num_channels()).map_err(diag_of);
    let want = if n == 0 { Ok(2) } else { Err(Diag::Channel(s, 3)) };
    ensure!(got == want, "in a document it is {:?}, expected {:?}", got, want);
    Ok(())
}

fn hash_of<T: std::hash::Hash>(v: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// Channels are told apart by what they are and by the value they address.
fn c17_identity(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let mut doc = tiny(n, 0);
    let shift = ch.upto(5);
    doc.joints[0].channels = (0..n).map(|i| TYPES[(i + shift) % 6]).collect();
    let a = load(&doc.text())?;
    // The same channels, in two joints.
    let cut = ch.upto(n);
    let mut split = make_doc(&[None, Some(0)], &[0, 0], &[false, true], 0, 0);
    split.joints[0].channels = doc.joints[0].channels[..cut].to_vec();
    split.joints[1].channels = doc.joints[0].channels[cut..].to_vec();
    // And shifted by one.
    split.joints[0].channels.insert(0, TYPES[shift]);
    let b = load(&split.text())?;
    let list = |b: &Bvh| -> Vec<Channel> { b.joints().flat_map(|j| j.channels().to_vec()).collect() };
    let (x, y) = (list(&a), list(&b));
    ensure!(x.len() == n && y.len() == n + 1, "{} and {} channels", x.len(), y.len());
    let i = ch.upto(n - 1);
    ch.note(|| format!("{} channels from {:?} on, cut at {}, channel {}", n, TYPES[shift], cut, i));
    ch.traces(1);
    ch.state(hash_debug(&(n, shift, cut, i)));
    let copy = x[i];
    ensure!(copy == x[i] && hash_of(&copy) == hash_of(&x[i]), "a channel differs from its copy");
    for (k, c) in x.iter().enumerate().chain(y.iter().enumerate()) {
        ensure!(c.motion_index() == k, "channel {} addresses value {}", k, c.motion_index());
        let want = k == i && c.channel_type() == x[i].channel_type();
        ensure!((*c == x[i]) == want && (x[i] == *c) == want && (*c != x[i]) != want, "{:?} == {:?} is {}", c, x[i], *c == x[i]);
        ensure!(!want || hash_of(c) == hash_of(&x[i]), "equal channels with different hashes");
    }
    // Kinds and axes are equal to themselves only.
    for s in TYPES {
        for t in TYPES {
            ensure!((s == t) == (type_name(s) == type_name(t)), "{:?} == {:?} is {}", s, t, s == t);
            ensure!((s.axis() == t.axis()) == (type_name(s)[..1] == type_name(t)[..1]), "the axes of {:?} and {:?}", s, t);
        }
    }
    Ok(())
}

fn c17_mixed(ch: &mut Ch) -> Outcome {
    // Parts of names in every combination.
    let parts: &[&[u8]] = &[b"", b"X", b"Y", b"Z", b"W", b"x", b"position", b"rotation", b"Position", b"pos", b"scale", b" ", b"\n"];
    let s = [*ch.pick(parts), *ch.pick(parts), *ch.pick(parts)].concat();
    parse_channel(ch, &s)
}

pub static C17: Property = Property {
    id: "C17",
    level: "model_checking",
    rule: "one evaluation reads one string as a channel in every way, or checks one row of the table; told apart by the string",
    assumptions: &[],
    suites: &[
        Suite::new("table", "all 6 channels: name, axis, direction, kind", c17_table),
        Suite::new("edits", "all names with up to so many bytes replaced, inserted or deleted", c17_edits).devs(2, 2),
        Suite::new("short", "all strings of up to so many bytes", c17_short).bound(2, 3),
        Suite::new("mixed", "all concatenations of 3 parts of names", c17_mixed),
        Suite::new("long", "every name with a run of one of 6 bytes, of every length up to so many, and of lengths up to 70000, at every place, alone and in a document", c17_long).bound(140, 1200),
        Suite::new("identity", "all pairs of channels of two skeletons, compared and hashed", c17_identity).bound(9, 24),
    ],
};

// ---------------------------------------------------------------------------------------------
// C18

fn ways_to_load(text: &[u8]) -> Vec<(&'static str, Result<MDoc, Diag>)> {
    let view = |r: Result<Bvh, bvh_anim::errors::LoadError>| r.map_err(diag_of).map(|b| observe(&b).unwrap_or_else(|e| panic!("{}", e)));
    let mut v = vec![
        ("Bvh::from_bytes", view(Bvh::from_bytes(text))),
        ("from_bytes", view(bvh_anim::from_bytes(text))),
        ("from_bytes of a vector", view(bvh_anim::from_bytes(&text.to_vec()))),
        ("Bvh::from_reader", view(Bvh::from_reader(Cursor::new(text)))),
        ("from_reader", view(bvh_anim::from_reader(text))),
        ("from_reader, buffered", view(bvh_anim::from_reader(std::io::BufReader::with_capacity(3, text)))),
        ("from_reader, by reference", {
            let mut r = Cursor::new(text);
            view(bvh_anim::from_reader(&mut r))
        }),
        ("try_from of bytes", view(Bvh::try_from(text))),
        ("try_from of a byte string", view(Bvh::try_from(bstr::ByteSlice::as_bstr(text)))),
    ];
    if let Ok(s) = std::str::from_utf8(text) {
        v.push(("from_str", view(bvh_anim::from_str(s))));
        v.push(("parse", view(s.parse::<Bvh>())));
        v.push(("try_from of a string", view(Bvh::try_from(s))));
        v.push(("from_bytes of a string", view(bvh_anim::from_bytes(s))));
    }
    v
}

fn same_verdict(a: &Result<MDoc, Diag>, b: &Result<MDoc, Diag>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => same(a, b).is_ok(),
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}

fn loads_alike(ch: &mut Ch, text: &[u8]) -> Outcome {
    ch.note(|| show(text));
    ch.state(hash_bytes(text));
    let all = ways_to_load(text);
    ch.traces(all.len());
    ch.outcome(if all[0].1.is_ok() { "accepted" } else { "rejected" });
    for (name, r) in &all[1..] {
        ensure!(same_verdict(r, &all[0].1), "{} yields {:?}, {} yields {:?}", all[0].0, all[0].1, name, r);
    }
    Ok(())
}

fn c18_lines(ch: &mut Ch) -> Outcome {
    let start = *ch.pick(CONTEXTS);
    let depth = ch.bound();
    let mut text = line_sequence(ch, start, ALPHABET, depth);
    tail(ch, &mut text);
    loads_alike(ch, &text)
}

fn c18_bytes(ch: &mut Ch) -> Outcome {
    let v = victims();
    let mut text = ch.pick(&v).clone();
    let at = ch.upto(text.len());
    match ch.choose(4) {
        0 => text.truncate(at),
        1 if at < text.len() => text[at] = *ch.pick(b" \n:{}0Ex\xff\x00\r\xe9\x0b\x0c\x1a"),
        1 => return Ok(()),
        2 => text.insert(at, *ch.pick(b" \n:{}0Ex\xff\x00\r\xe9\x0b\x0c\x1a")),
        _ => {
            // Longer insertions: marks, unusual blanks and ends of lines, other encodings.
            let s = *ch.pick(&[
                &b"\xef\xbb\xbf"[..], b"\xef\xbb", b"\xff\xfe", b"\xfe\xff", b"\x00\x00\xfe\xff", b"\xc2\xa0", b"\xc2\x85",
                b"\xe2\x80\xa8", b"\xe3\x80\x80", b"\xf0\x9f\x98\x80", b"\r\n", b"\n\r", b"\x1b[0m", b"#", b"//", b"\xed\xa0\x80",
            ]);
            text.splice(at..at, s.iter().copied());
        }
    }
    loads_alike(ch, &text)
}

fn c18_documents(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let doc = sweep(ch, n);
    let mut text = doc.text();
    if ch.flag() {
        text.extend_from_slice(b"1\n");
    }
    loads_alike(ch, &text)
}

fn c18_writers(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let doc = match ch.choose(3) {
        0 => sweep(ch, n),
        1 => skeleton(ch, 3, &[0, 1, 3], 2),
        _ => {
            // Lines longer than any usual buffer.
            let big = bulky();
            ch.pick(&big).clone()
        }
    };
    let bvh = load(&doc.text())?;
    let spaces = [None, Some(0), Some(2)];
    let o = Opts { spaces: *ch.pick(&spaces), windows: ch.flag(), offset: [None, Some(2)][ch.choose(2) as usize], time: None, motion: [None, Some(3)][ch.choose(2) as usize] };
    ch.note(|| format!("{:?}\n{}", o, show(&doc.text())));
    ch.traces(5);
    ch.state(hash_debug(&(hash_bytes(&doc.text()), &o)));
    let opts = o.fields();
    let a = opts.write_to_string(&bvh);
    let mut b = vec![];
    opts.write(&bvh, &mut b).map_err(|e| e.to_string())?;
    let mut c = Cursor::new(vec![]);
    o.built().write(&bvh, &mut c).map_err(|e| e.to_string())?;
    ensure!(a == b && a == c.into_inner(), "the ways to write with options differ");
    let d = bvh.to_string();
    let mut e = vec![];
    bvh.write_to(&mut e).map_err(|e| e.to_string())?;
    let defaults = [WriteOptions::default(), WriteOptions::new(), Opts::DEFAULT.fields()];
    for w in &defaults {
        ensure!(w.write_to_string(&bvh) == d, "the default options differ from the default way to write");
        ensure!(*w == defaults[0], "the default options are not equal");
    }
    ensure!(d == e, "write_to() and to_string() differ");
    // The options are what they were set to.
    ensure!(o.built() == opts && opts.clone() == opts, "the options differ: {:?} and {:?}", o.built(), opts);
    let eol = o.eol();
    ensure!(eol.as_escaped_str() == eol.as_str().replace('\r', "\\r").replace('\n', "\\n"), "{:?} is shown as {:?}", eol, eol.as_escaped_str());
    ensure!(eol.as_escaped_bytes() == eol.as_escaped_str().as_bytes(), "{:?} is shown as {:?}", eol, eol.as_escaped_bytes());
    ensure!(eol.as_bytes() == eol.as_str().as_bytes() && eol.to_string() == eol.as_str(), "{:?} is {:?}", eol, eol.to_string());
    let z = WriteOptions::new().with_indent(IndentStyle::with_spaces(0));
    ensure!(z.indent == IndentStyle::NoIndentation, "no spaces are {:?}", z.indent);
    ensure!(IndentStyle::default() == IndentStyle::Tabs && LineTerminator::default() == LineTerminator::native(), "other defaults");
    Ok(())
}

fn c18_setters(ch: &mut Ch) -> Outcome {
    // The setters of the options, in every order, each sets its own option.
    let mut o = WriteOptions::new();
    let mut want = Opts::DEFAULT;
    let mut hist = vec![];
    for _ in 0..ch.bound() {
        let op = ch.choose(16);
        if op == 0 {
            break;
        }
        hist.push(op);
        ch.steps(1);
        let p = [Some(4), None, Some(0)][(op % 3) as usize];
        o = match op {
            1..=3 => {
                want.offset = p;
                o.with_offset_significant_figures(p)
            }
            4..=6 => {
                want.time = p;
                o.with_frame_time_significant_figures(p)
            }
            7..=9 => {
                want.motion = p;
                o.with_motion_values_significant_figures(p)
            }
            10 | 11 => {
                want.windows = op == 10;
                o.with_line_terminator(want.eol())
            }
            12 => {
                want.spaces = None;
                o.with_indent(IndentStyle::Tabs)
            }
            13 => {
                want.spaces = Some(0);
                o.with_indent(IndentStyle::NoIndentation)
            }
            14 => {
                want.spaces = Some(3);
                o.with_indent(IndentStyle::with_spaces(3))
            }
            _ => {
                // A plain number is accepted, too.
                want.offset = Some(7);
                o.with_offset_significant_figures(7)
            }
        };
    }
    ch.note(|| format!("{:?}: {:?}", hist, want));
    ch.traces(1);
    ch.state(hash_debug(&want));
    // Equal exactly if every option is equal, and then with the same hash.
    ensure!(hash_of(&o) == hash_of(&want.fields()), "equal options with different hashes");
    let others = [
        Opts { spaces: Some(want.spaces.map_or(1, |n| n + 1)), ..want.clone() },
        Opts { windows: !want.windows, ..want.clone() },
        Opts { offset: Some(want.offset.map_or(1, |n| n + 1)), ..want.clone() },
        Opts { time: Some(want.time.map_or(1, |n| n + 1)), ..want.clone() },
        Opts { motion: Some(want.motion.map_or(1, |n| n + 1)), ..want.clone() },
    ];
    for w in &others {
        ensure!(o != w.fields() && w.fields() != o && w.built() != o, "{:?} and {:?} are equal", o, w);
    }
    ensure!(o == want.fields(), "after {:?} the options are {:?}, expected {:?}", hist, o, want.fields());
    ensure!(o.offset_significant_figures == want.offset && o.frame_time_significant_figures == want.time, "other precisions: {:?}", o);
    ensure!(o.motion_values_significant_figures == want.motion && o.line_terminator == want.eol() && o.indent == want.indent(), "other options: {:?}", o);
    Ok(())
}

pub static C18: Property = Property {
    id: "C18",
    level: "model_checking",
    rule: "one evaluation loads one text in 9 or 13 ways, or writes one animation in 8 ways, and compares the outcomes; told apart by the text",
    assumptions: &[],
    suites: &[
        Suite::new("lines", "from 18 points of a document, every sequence of lines out of an alphabet of 35, with every ending", c18_lines).bound(2, 3),
        Suite::new("bytes", "4 documents with a byte replaced, or one of 31 strings inserted, at every position, or cut there", c18_bytes),
        Suite::new("documents", DIMENSIONS, c18_documents).bound(30, 200),
        Suite::new("writers", "animations written in all ways, with 24 sets of options", c18_writers).bound(20, 60),
        Suite::new("setters", "every sequence of up to so many of 15 setters of the options", c18_setters).bound(4, 5),
    ],
};
