//! What the loader does with documents, valid or not.

use super::gen::*;
use crate::engine::*;
use crate::model::*;
use crate::spec::*;
use bvh_anim::errors::LoadErrorKind;
use bvh_anim::Bvh;
use std::error::Error;

// ---------------------------------------------------------------------------------------------
// Damaged documents, shared by several properties.

const NOISE: &[&[u8]] = &[
    b"", b"0", b"-0", b"1", b"-1", b"+1", b"18446744073709551615", b"18446744073709551616",
    b"99999999999999999999999999999999999999999999", b"9223372036854775808", b"4294967296", b"1e308", b"1e309",
    b"-1e309", b"1e39", b"1e-400", b"nan", b"NaN", b"inf", b"-inf", b"infinity", b"1.8446744073709552e19", b"1e20",
    b".", b"-", b"+", b"e", b"1e", b"1.", b".5", b"0x10", b"1_000", b"1,5", b"1.5.5", b"--1", b"{", b"}", b"{}", b":",
    b"::", b"a:b", b"HIERARCHY", b"ROOT", b"JOINT", b"End", b"Site", b"OFFSET", b"CHANNELS", b"MOTION", b"Frames:",
    b"Frame", b"Time:", b"Xposition", b"xposition", b"Xrotation ", b"\xff", b"\xc2\xa0", b"\xe2\x80\xa8", b"\xef\xbb\xbf",
    b"\x00", b"\x0b", b"\x0c", b"\r", b"\n", b"\n\n", b"\xed\xa0\x80", b"\x85", b"\t",
];

fn long_noise() -> Vec<Vec<u8>> {
    vec![
        vec![b'9'; 400],
        [&b"0."[..], &[b'0'; 400], b"1"].concat(),
        [&[b'1'; 60][..], b"e-60"].concat(),
        [&b"1."[..], &[b'3'; 5000]].concat(),
        vec![b'x'; 3000],
        vec![b'{'; 300],
        b"1e99999999999999999999".to_vec(),
        b"1e-99999999999999999999".to_vec(),
    ]
}

/// The byte ranges of the tokens of a text.
pub fn token_ranges(text: &[u8]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut i = 0;
    while i < text.len() {
        if text[i].is_ascii_whitespace() {
            i += 1;
            continue;
        }
        let s = i;
        while i < text.len() && !text[i].is_ascii_whitespace() {
            i += 1;
        }
        out.push((s, i));
    }
    out
}

fn splice(text: &[u8], (a, b): (usize, usize), with: &[u8]) -> Vec<u8> {
    [&text[..a], with, &text[b..]].concat()
}

fn damaged_bytes(ch: &mut Ch) -> Vec<u8> {
    let v = victims();
    let text = ch.pick(&v).clone();
    let at = ch.upto(text.len());
    match ch.choose(4) {
        0 => text[..at].to_vec(),
        1 => {
            let b = ch.choose(256) as u8;
            splice(&text, (at, at), &[b])
        }
        2 => {
            let b = ch.choose(256) as u8;
            splice(&text, (at, (at + 1).min(text.len())), &[b])
        }
        _ => splice(&text, (at, (at + 1).min(text.len())), b""),
    }
}

fn damaged_pairs(ch: &mut Ch) -> Vec<u8> {
    const BYTES: &[u8] = b"\n {}:-e9\xffx";
    let v = victims();
    let which = ch.upto(ch.bound());
    let mut text = v[which].clone();
    let a = ch.upto(text.len() - 1);
    let b = a + ch.upto(text.len() - 1 - a);
    text[a] = *ch.pick(BYTES);
    text[b] = *ch.pick(BYTES);
    text
}

fn damaged_tokens(ch: &mut Ch) -> Vec<u8> {
    let v = victims();
    let text = ch.pick(&v).clone();
    let ranges = token_ranges(&text);
    let long = long_noise();
    let noise = |ch: &mut Ch| -> Vec<u8> {
        let k = ch.choose((NOISE.len() + long.len()) as u32) as usize;
        if k < NOISE.len() { NOISE[k].to_vec() } else { long[k - NOISE.len()].clone() }
    };
    let first = ch.upto(ranges.len() - 1);
    let w1 = noise(ch);
    // Optionally damage one of the next tokens, too.
    let reach = ch.bound();
    let gap = ch.upto(reach.min(ranges.len() - 1 - first));
    if gap == 0 {
        return splice(&text, ranges[first], &w1);
    }
    let w2 = noise(ch);
    let later = splice(&text, ranges[first + gap], &w2);
    splice(&later, ranges[first], &w1)
}

/// What other formats allow, at every position: comments, marks, other ways to write numbers and words.
fn damaged_foreign(ch: &mut Ch) -> Vec<u8> {
    let v = victims();
    let text = ch.pick(&v).clone();
    match ch.choose(3) {
        0 => {
            let at = ch.upto(text.len());
            let s = *ch.pick(&[
                "\u{feff}", "\u{fffe}", "\u{200b}", "#", "# ", "#\n", "//", "// ", "//\n", ";", "; ", "--", "%", "!", "/*", "/* */", "<!-- -->", "\\", "\\\n", "\"", "'",
                "\"\"", "_", ",", ", ", "'000", "f", "d", "d0", "D1", "e0", "E+0", "f32", "L", "0x", "0b", "0o", "p1", "%", "$", "\u{b0}", "\u{2212}", "\u{661}", "\u{ff11}",
                "rem ", "REM ", "\x1a", "\x04", "\0", "\0\0\0", "\x7f", "\x08", "\x1b[0m", "{", "}", "{}", "{ }", "( )", "[ ]", "=", " = ", "::", " : ", "-", "--", "+", "+-", ".", "..", "/2", "*2", "^2",
                "inf", "nan", "null", "None", "NaN(1)", "1.#INF", "\n#\n", "\n//\n", "\n;\n", "\n\x1a", "\n\0\n", "\n\n\n", "\nEOF\n", "\nEND\n", "\n---\n", "\nMOTION\n",
            ]);
            splice(&text, (at, at), s.as_bytes())
        }
        1 => {
            // Words with letters in another case.
            let ranges = token_ranges(&text);
            let (a, b) = *ch.pick(&ranges);
            let mut w = text[a..b].to_vec();
            match ch.choose(5) {
                0 => w.make_ascii_lowercase(),
                1 => w.make_ascii_uppercase(),
                2 => {
                    w.make_ascii_lowercase();
                    w[0] = w[0].to_ascii_uppercase();
                }
                3 => w = w.iter().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                _ => {
                    let i = ch.upto(w.len() - 1);
                    w[i] = if w[i].is_ascii_lowercase() { w[i].to_ascii_uppercase() } else { w[i].to_ascii_lowercase() };
                }
            }
            splice(&text, (a, b), &w)
        }
        _ => {
            // Words doubled, shortened, joined to the next, or in quotes or brackets.
            let ranges = token_ranges(&text);
            let i = ch.upto(ranges.len() - 1);
            let (a, b) = ranges[i];
            let w = text[a..b].to_vec();
            match ch.choose(9) {
                0 => splice(&text, (b, b), &w),
                1 => splice(&text, (a, a + 1), b""),
                2 => splice(&text, (b - 1, b), b""),
                3 => splice(&text, (b, ranges.get(i + 1).map_or(text.len(), |r| r.0)), b""),
                4 => splice(&text, (a, b), &[b"\"", &w[..], b"\""].concat()),
                5 => splice(&text, (a, b), &[b"(", &w[..], b")"].concat()),
                6 => splice(&text, (a, b), &[b"<", &w[..], b">"].concat()),
                7 => splice(&text, (b, b), b"s"),
                _ => splice(&text, (b, b), &[b" ", &w[..]].concat()),
            }
        }
    }
}

/// The second and later changes are near the first, unless the exploration is thorough.
fn damaged_lines(ch: &mut Ch) -> Vec<u8> {
    let v = victims();
    let text = ch.pick(&v).clone();
    let mut lines: Vec<Vec<u8>> = text.split_inclusive(|b| *b == b'\n').map(|l| l.to_vec()).collect();
    let reach = if ch.thorough() { usize::MAX } else { 2 };
    let mut near = None;
    for round in 0..ch.bound() {
        let n = lines.len();
        let op = ch.choose(if round == 0 { 4 } else { 5 });
        if op == 4 || n == 0 {
            break;
        }
        let (from, to) = match near {
            None => (0, n - 1),
            Some(at) => (n.min(at) - reach.min(n.min(at)), (n - 1).min(reach.saturating_add(at))),
        };
        let a = from + ch.upto(to.saturating_sub(from));
        let a = a.min(n - 1);
        near = near.or(Some(a));
        match op {
            0 => {
                lines.remove(a);
            }
            1 => {
                let l = lines[a].clone();
                lines.insert(ch.upto(n), l);
            }
            2 => {
                let b = ch.upto(n - 1);
                lines.swap(a, b);
            }
            _ => {
                // Join the line with the next.
                while lines[a].last().map_or(false, |b| b.is_ascii_whitespace()) {
                    lines[a].pop();
                }
                lines[a].push(b' ');
            }
        }
    }
    lines.concat()
}

// ---------------------------------------------------------------------------------------------
// C01

/// What it takes to format a value, without keeping the text.
fn text_size(args: std::fmt::Arguments<'_>) -> usize {
    struct Count(usize);
    impl std::fmt::Write for Count {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0 += s.len();
            Ok(())
        }
    }
    let mut c = Count(0);
    let _ = std::fmt::Write::write_fmt(&mut c, args);
    c.0
}

/// Load, and look at everything there is to see about the outcome.
fn survives(ch: &mut Ch, text: &[u8]) -> Outcome {
    ch.note(|| show(text));
    ch.steps(1);
    ch.traces(1);
    ch.state(hash_bytes(text));
    match Bvh::from_bytes(text) {
        Ok(bvh) => {
            ch.outcome("accepted");
            let mut n = 0;
            for j in bvh.joints() {
                n += j.name().len() + j.channels().len() + j.children().next().map_or(0, |c| c.index());
                n += j.parent().map_or(0, |p| p.index()) + j.offset().len() + j.end_site().map_or(0, |e| e.len());
            }
            n += bvh.frames().map(|f| f.len()).sum::<usize>();
            if n < 100_000 {
                for j in bvh.joints() {
                    n += text_size(format_args!("{:?}", j));
                }
                n += text_size(format_args!("{:?} {:?} {:?}", bvh, bvh.frames(), bvh.joints()));
                n += bvh.to_string().len();
            }
            std::hint::black_box(n);
        }
        Err(e) => {
            let shown = format!("{} {:?} {:?}", e, e, e.line());
            let mut s = e.source();
            while let Some(inner) = s {
                std::hint::black_box(inner.to_string());
                s = inner.source();
            }
            std::hint::black_box(shown);
            ch.outcome(&diag_of(e).name());
        }
    }
    Ok(())
}

fn c01_lines(ch: &mut Ch) -> Outcome {
    let start = *ch.pick(CONTEXTS);
    let depth = ch.bound();
    let text = line_sequence(ch, start, ALPHABET, depth);
    survives(ch, &text)
}

fn c01_structure(ch: &mut Ch) -> Outcome {
    let depth = ch.bound();
    let mut text = line_sequence(ch, CONTEXTS[3], STRUCTURE, depth);
    tail(ch, &mut text);
    survives(ch, &text)
}

fn c01_bytes(ch: &mut Ch) -> Outcome {
    let t = damaged_bytes(ch);
    survives(ch, &t)
}
fn c01_pairs(ch: &mut Ch) -> Outcome {
    let t = damaged_pairs(ch);
    survives(ch, &t)
}
fn c01_tokens(ch: &mut Ch) -> Outcome {
    let t = damaged_tokens(ch);
    survives(ch, &t)
}
fn c01_foreign(ch: &mut Ch) -> Outcome {
    let t = damaged_foreign(ch);
    survives(ch, &t)
}
fn c01_rearranged(ch: &mut Ch) -> Outcome {
    let t = damaged_lines(ch);
    survives(ch, &t)
}

fn c01_raw(ch: &mut Ch) -> Outcome {
    // Every short string of bytes, alone and after the beginnings of documents.
    let start = *ch.pick(CONTEXTS);
    let mut text = start.as_bytes().to_vec();
    let n = ch.upto(ch.bound());
    for _ in 0..n.min(2) {
        text.push(ch.choose(256) as u8);
    }
    for _ in 2..n {
        text.push(*ch.pick(b" \n:{}E0-\x80\r"));
    }
    survives(ch, &text)
}

fn c01_large(ch: &mut Ch) -> Outcome {
    let n = [0usize, 1, 2, 3, 10, 100, 1000, 4095, 4096, 8191, 8192, 8193, 20_000][ch.choose(if ch.thorough() { 13 } else { 12 }) as usize];
    let unit: &[&[u8]] = &[
        b"{\n", b"}\n", b"JOINT x\n{\n", b"End Site\n{\n}\n", b"JOINT x\n{\n}\n", b"JOINT x\n{\nEnd Site\n{\nOFFSET 1 2 3\n}\n}\n",
        b"OFFSET 1 2 3\n", b"OFFSET 1 2 3 ", b"CHANNELS 1 Xposition\n", b"CHANNELS 0\n", b" Xposition", b"9", b" 9", b"9 9\n",
        b"\n", b" ", b"\t\n", b"\r", b"\r\n", b":", b"\xff", b"\x00", b"a", b".", b"-", b"e", b"0.", b"ROOT x\n", b"HIERARCHY\n",
        b"MOTION\n", b"Frames: 9\n", b"Frame Time: 1\n",
    ];
    let unit = *ch.pick(unit);
    let starts: &[&[u8]] = &[
        b"", b"HIERARCHY\n", b"HIERARCHY\nROOT ", b"HIERARCHY\nROOT a\n{\n", b"HIERARCHY\nROOT a\n{\nCHANNELS ",
        b"HIERARCHY\nROOT a\n{\nCHANNELS 1", b"HIERARCHY\nROOT a\n{\nOFFSET ", b"HIERARCHY\nROOT a\n{\nOFFSET 1 2 ",
        b"HIERARCHY\nROOT a\n{\nEnd Site\n{\nOFFSET 1 1 ", b"HIERARCHY\nROOT a\n{\nCHANNELS 1 Xposition\n}\n",
        b"HIERARCHY\nROOT a\n{\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: ",
        b"HIERARCHY\nROOT a\n{\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 1",
        b"HIERARCHY\nROOT a\n{\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 1\nFrame Time: ",
        b"HIERARCHY\nROOT a\n{\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 1\nFrame Time: 1",
        b"HIERARCHY\nROOT a\n{\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 1\nFrame Time: 1e-",
        b"HIERARCHY\nROOT a\n{\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 1\nFrame Time: 0.1\n",
        b"HIERARCHY\nROOT a\n{\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 1\nFrame Time: 0.1\n1e",
    ];
    let mut text = ch.pick(starts).to_vec();
    for _ in 0..n {
        text.extend_from_slice(unit);
    }
    match ch.choose(3) {
        0 => {}
        1 => text.extend_from_slice(b"\n}\nMOTION\nFrames: 0\nFrame Time: 0\n"),
        _ => {
            for _ in 0..=n {
                text.extend_from_slice(b"}\n");
            }
            text.extend_from_slice(b"MOTION\nFrames: 0\nFrame Time: 0\n");
        }
    }
    survives(ch, &text)
}

fn c01_numerals(ch: &mut Ch) -> Outcome {
    // Numbers with very many digits, in particular close to halfway between two numbers.
    let n = *ch.pick(&[0usize, 1, 10, 100, 106, 114, 128, 256, 500, 767, 768, 769, 1024, 4096, 16_000, 17_000, 20_000, 60_000]);
    let start: &[&str] = &[
        "1.000000059604644775390625", "1.00000000000000011102230246251565404236316680908203125", "16777217", "9007199254740993", "0.", "", "4.9e",
        "0.000000000000000000000000000000000000000000000700649232162408535461864791644958065640130970938257885878534141944895541342930300743319094181060791015625",
    ];
    let mut numeral = ch.pick(start).to_string();
    let fill = *ch.pick(&["0", "1", "9", "49406564584124654417656879286822137236505980"]);
    numeral.push_str(&fill.repeat(n.div_ceil(fill.len())));
    numeral.push_str(ch.pick(&["", "1", "x", "e5", "e-300", "e99999"]));
    let text = match ch.choose(4) {
        0 => format!("HIERARCHY\nROOT a\n{{\nOFFSET 1 {} 2\nCHANNELS 0\n}}\nMOTION\nFrames: 0\nFrame Time: 0\n", numeral),
        1 => format!("HIERARCHY\nROOT a\n{{\nOFFSET 1 3 2\nCHANNELS 0\nEnd Site\n{{\nOFFSET 1 2 {}\n}}\n}}\nMOTION\nFrames: 0\nFrame Time: 0\n", numeral),
        2 => format!("HIERARCHY\nROOT a\n{{\nOFFSET 1 3 2\nCHANNELS 0\n}}\nMOTION\nFrames: 0\nFrame Time: {}\n", numeral),
        _ => format!("HIERARCHY\nROOT a\n{{\nOFFSET 1 3 2\nCHANNELS 1 Xposition\n}}\nMOTION\nFrames: 2\nFrame Time: 0\n1\n{}", numeral),
    };
    survives(ch, text.as_bytes())
}

fn c01_huge(ch: &mut Ch) -> Outcome {
    // Depths and lengths far above what a recursive loader survives.
    let which = ch.choose(4);
    let n = if ch.thorough() { 400_000 } else { 60_000 };
    let mut text = b"HIERARCHY\nROOT a\n{\n".to_vec();
    match which {
        0 => {
            for _ in 0..n {
                text.extend_from_slice(b"JOINT x\n{\n");
            }
        }
        1 => {
            text.extend_from_slice(b"OFFSET ");
            text.resize(text.len() + 20 * n, b'1');
        }
        2 => {
            text.extend_from_slice(b"CHANNELS 3");
            for _ in 0..n {
                text.extend_from_slice(b" Xposition");
            }
        }
        _ => {
            text.extend_from_slice(b"}\nMOTION\nFrames: 0\nFrame Time: 0\n");
            text.resize(text.len() + 20 * n, b'\n');
        }
    }
    ch.steps(n);
    ch.note(|| format!("{} ... ({} bytes)", show(&text[..60]), text.len()));
    ch.state(hash_bytes(&text));
    ch.traces(1);
    std::hint::black_box(Bvh::from_bytes(&text).is_ok());
    Ok(())
}

pub static C01: Property = Property {
    id: "C01",
    level: "model_checking",
    rule: "one evaluation loads one document and looks at the whole outcome; documents are told apart by their bytes",
    assumptions: &[
        "an execution which makes no progress for 60 s counts as not terminating",
        "the explored stack size is 16 MiB",
    ],
    suites: &[
        Suite::new("lines", "from 18 points of a document, every sequence of lines out of an alphabet of 35, extended until the specification rejects it", c01_lines).bound(3, 4),
        Suite::new("structure", "every sequence of structural lines in the hierarchy, with every ending", c01_structure).bound(7, 9),
        Suite::new("bytes", "4 documents: every truncation, and every byte replaced, inserted or deleted, at every position", c01_bytes),
        Suite::new("pairs", "every pair of positions replaced by every pair of 10 bytes", c01_pairs).bound(0, 3),
        Suite::new("foreign", "4 documents: strings which other formats allow (comments, marks, other ways to write numbers) at every position, every word in other cases, doubled, shortened, joined or quoted", c01_foreign),
        Suite::new("tokens", "every token replaced by every hostile token, with one of the tokens which follow", c01_tokens).bound(2, 5),
        Suite::new("rearranged", "lines deleted, repeated, swapped and joined", c01_rearranged).bound(2, 2),
        Suite::new("raw", "every short string of bytes, alone and after the beginnings of a document", c01_raw).bound(2, 4),
        Suite::new("large", "every construct repeated up to 20000 times, in every context", c01_large),
        Suite::new("numerals", "numbers with up to 60000 digits, also close to halfway between two numbers, in 4 places", c01_numerals),
        Suite::new("huge", "very deep and very long documents", c01_huge),
    ],
};

// ---------------------------------------------------------------------------------------------
// C02: what is loaded is consistent.

/// Whatever is accepted must be consistent, and survive being written and loaded again.
fn coherent(ch: &mut Ch, text: &[u8]) -> Outcome {
    ch.note(|| show(text));
    ch.steps(1);
    let bvh = match Bvh::from_bytes(text) {
        Err(_) => {
            ch.outcome("rejected");
            return Ok(());
        }
        Ok(b) => b,
    };
    ch.traces(1);
    ch.state(hash_bytes(text));
    ch.outcome("accepted");
    let seen = observe(&bvh)?;
    ensure!(!seen.joints.is_empty(), "accepted a document without a root");
    let written = bvh.to_string();
    let again = Bvh::from_bytes(&written).map_err(|e| format!("written out, it is rejected: {}\n{}", e, show(&written)))?;
    let seen_again = observe(&again).map_err(|e| format!("written out and loaded: {}", e))?;
    // A value which is no number is written as such, but its bits are not.
    same(&seen_again, &seen).map_err(|e| format!("written out and loaded: {}\n{}", e, show(&written)))
}

fn c02_lines(ch: &mut Ch) -> Outcome {
    let start = *ch.pick(CONTEXTS);
    let depth = ch.bound();
    let mut text = line_sequence(ch, start, ALPHABET, depth);
    tail(ch, &mut text);
    coherent(ch, &text)
}
fn c02_structure(ch: &mut Ch) -> Outcome {
    let depth = ch.bound();
    let mut text = line_sequence(ch, CONTEXTS[3], STRUCTURE, depth);
    tail(ch, &mut text);
    coherent(ch, &text)
}
fn c02_bytes(ch: &mut Ch) -> Outcome {
    let t = damaged_bytes(ch);
    coherent(ch, &t)
}
fn c02_tokens(ch: &mut Ch) -> Outcome {
    let t = damaged_tokens(ch);
    if t.windows(4).any(|w| w == b"9999" || w == b"e308" || w == b"e309") && frame_time_is_long(&t) {
        return Ok(());
    }
    coherent(ch, &t)
}
fn c02_foreign(ch: &mut Ch) -> Outcome {
    let t = damaged_foreign(ch);
    if frame_time_is_long(&t) {
        return Ok(());
    }
    coherent(ch, &t)
}
fn c02_rearranged(ch: &mut Ch) -> Outcome {
    let t = damaged_lines(ch);
    coherent(ch, &t)
}
fn c02_shapes(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let doc = skeleton(ch, n, &[0, 1, 3, 7], 2);
    coherent(ch, &doc.text())
}
fn c02_sweep(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let doc = sweep(ch, n);
    coherent(ch, &doc.text())
}

/// Seconds beyond 2^22 have more digits than the number they are read as: see C05.
fn frame_time_is_long(text: &[u8]) -> bool {
    match spec_load(text) {
        Ok(d) => d.frame_time.as_secs() >= 1 << 22,
        Err(_) => false,
    }
}

pub static C02: Property = Property {
    id: "C02",
    level: "model_checking",
    rule: "one evaluation loads one document; those which are accepted are counted as validated traces, and told apart by their bytes",
    assumptions: &["frame times of 2^22 s and more are left out of the comparison with the reloaded text"],
    suites: &[
        Suite::new("lines", "from 18 points of a document, every sequence of lines out of an alphabet of 35, with every ending", c02_lines).bound(2, 3),
        Suite::new("structure", "every sequence of structural lines in the hierarchy, with every ending", c02_structure).bound(7, 9),
        Suite::new("bytes", "4 documents: every truncation, and every byte replaced, inserted or deleted, at every position", c02_bytes),
        Suite::new("foreign", "4 documents: strings which other formats allow (comments, marks, other ways to write numbers) at every position, every word in other cases, doubled, shortened, joined or quoted", c02_foreign),
        Suite::new("tokens", "every token replaced by every hostile token, with one of the tokens which follow", c02_tokens).bound(1, 4),
        Suite::new("rearranged", "lines deleted, repeated, swapped and joined", c02_rearranged).bound(2, 2),
        Suite::new("shapes", "every tree, with 0, 1, 3 or 7 channels and with or without an end site for every joint", c02_shapes).bound(4, 5),
        Suite::new("sweep", DIMENSIONS, c02_sweep).bound(100, 500),
    ],
};

// ---------------------------------------------------------------------------------------------
// C03: faithful

fn faithful(ch: &mut Ch, doc: &MDoc) -> Outcome {
    let text = doc.text();
    ch.note(|| show(&text));
    ch.steps(doc.joints.len() + doc.frames.len());
    ch.traces(1);
    ch.state(hash_bytes(&text));
    matches(&load(&text)?, doc)
}

fn c03_shapes(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let doc = skeleton(ch, n, &[0, 1, 3, 6], 2);
    faithful(ch, &doc)
}
fn c03_trees(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let doc = tree_doc(ch, n, 2);
    faithful(ch, &doc)
}
fn c03_channels(ch: &mut Ch) -> Outcome {
    // Every list of channels of a joint, in a root or a child.
    let n = ch.upto(ch.bound());
    let list: Vec<_> = (0..n).map(|_| *ch.pick(&TYPES)).collect();
    let which = ch.upto(1);
    let mut doc = make_doc(&[None, Some(0)], &[2, 2], &[false, true], 0, 3);
    doc.joints[which].channels = list;
    let width = doc.width();
    doc.frames = (0..2).map(|f| (0..width).map(|c| (f * width + c) as f32 + 0.25).collect()).collect();
    faithful(ch, &doc)
}
fn c03_frames(ch: &mut Ch) -> Outcome {
    let shape = ch.choose(4) as usize;
    let channels = ch.upto(4);
    let frames = ch.upto(ch.bound());
    let mut doc = [tiny(channels, frames), chain(2, channels, frames), star(3, channels, frames), small(frames)][shape].clone();
    doc.frame_time = frame_time(ch);
    faithful(ch, &doc)
}
fn c03_names(ch: &mut Ch) -> Outcome {
    let name = match name(ch, ch.bound()) {
        Some(name) => name,
        None => return Ok(()),
    };
    let which = ch.upto(2);
    let mut doc = make_doc(&[None, Some(0), Some(0)], &[1, 1, 1], &[false, true, true], 1, 0);
    doc.joints[which].name = name;
    faithful(ch, &doc)
}
fn c03_sweep(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let doc = sweep(ch, n);
    faithful(ch, &doc)
}
fn c03_giant(ch: &mut Ch) -> Outcome {
    let doc = giant(ch);
    let text = unindented(&doc);
    ch.note(|| show(&text));
    ch.steps(doc.joints.len());
    ch.traces(1);
    ch.state(hash_bytes(&text));
    matches(&load(&text)?, &doc)
}
fn c03_same_names(ch: &mut Ch) -> Outcome {
    // Joints may share a name.
    let mut doc = tree_doc(ch, 5, 1);
    for j in doc.joints.iter_mut() {
        j.name = ch.pick(&[&b"A"[..], b"B", b"ROOT"]).to_vec();
    }
    faithful(ch, &doc)
}

pub static C03: Property = Property {
    id: "C03",
    level: "model_checking",
    rule: "one evaluation renders one abstract document, loads it, and compares every observable part; no two places of a document hold the same value; documents are told apart by their text",
    assumptions: &["the rendering of numbers and their oracle rely on the standard library"],
    suites: &[
        Suite::new("shapes", "every tree, with 0, 1, 3 or 6 channels and with or without an end site for every joint", c03_shapes).bound(4, 5),
        Suite::new("trees", "every tree with up to so many joints", c03_trees).bound(8, 10),
        Suite::new("channels", "every list of up to so many channels, of the root and of a child", c03_channels).bound(5, 7),
        Suite::new("frames", "skeletons of 4 kinds with 0 to 4 channels per joint, every number of frames, and 24 frame times", c03_frames).bound(6, 20),
        Suite::new("names", "names: every byte, every string over 11 bytes, keywords of the format", c03_names).bound(4, 5),
        Suite::new("same-names", "joints which share names", c03_same_names),
        Suite::new("sweep", DIMENSIONS, c03_sweep).bound(140, 600),
        Suite::new("giant", "6 skeletons of more than 2^16 joints", c03_giant),
    ],
};

// ---------------------------------------------------------------------------------------------
// C04: layout

fn c04_uniform(ch: &mut Ch) -> Outcome {
    let mut docs = vec![small(2), tiny(2, 3), chain(3, 1, 2), star(3, 0, 0)];
    docs[0].joints[2].name = b"a:b".to_vec();
    let doc = ch.pick(&docs).clone();
    let indent = *ch.pick(&["", "\t", " ", "    ", " \t", "\x0c", "\r "]);
    let sep = *ch.pick(&[" ", "\t", "  ", " \t ", "\t\t", "\x0c", "\r", " \x0c\r\t"]);
    let trail = *ch.pick(&["", " ", "\t", "  \t", "\x0c", "\r"]);
    let eol = *ch.pick(&["\n", "\r\n"]);
    let blanks = *ch.pick(&["", "X", "XX", " X", "\tX \tX"]);
    let lead = ch.flag();
    let last = ch.flag();
    let end = format!("{}{}{}", trail, eol, blanks.replace('X', eol));
    let mut text = vec![];
    if lead {
        text.extend_from_slice(eol.as_bytes());
    }
    text.extend_from_slice(&render(&doc.lines(), indent, sep, &end));
    if last {
        while text.last().map_or(false, |b| b.is_ascii_whitespace()) {
            text.pop();
        }
    }
    ch.note(|| show(&text));
    ch.traces(1);
    ch.state(hash_bytes(&text));
    matches(&load(&text)?, &doc)
}

/// The conventional text with up to so many local deviations.
fn c04_local(ch: &mut Ch) -> Outcome {
    let mut docs = vec![tiny(2, 2), small(1), chain(2, 1, 2)];
    docs[1].joints[1].name = b"x:y".to_vec();
    let doc = ch.pick(&docs).clone();
    let eol = *ch.pick(&["\n", "\r\n"]);
    let other = if eol == "\n" { "\r\n" } else { "\n" };
    let lines = doc.lines();
    let mut text = vec![];
    let spaces = ["", " ", "\t", "   ", "\t \t", "\x0c", "\r"];
    for (i, l) in lines.iter().enumerate() {
        // Blank lines before.
        let blank = *spaces_or(ch, &["", "E", "EE", " E", "\t\tE", "OE", "\x0cE", "\r\rE"]);
        text.extend_from_slice(blank.replace('E', eol).replace('O', other).as_bytes());
        let ind = ch.dev(1 + spaces.len() as u32) as usize;
        text.extend_from_slice(if ind == 0 { "  ".repeat(l.depth) } else { spaces[ind - 1].to_string() }.as_bytes());
        let motion = i + doc.frames.len() >= lines.len();
        for (k, t) in l.tokens.iter().enumerate() {
            if k > 0 {
                let opts: &[&str] = if motion {
                    &[" ", "\t", "  ", " \t", "E", " E ", "EE", "\x0c", "\r", "\t\x0c "]
                } else {
                    &[" ", "\t", "  ", " \t", "\x0c", "\r", "\t\x0c "]
                };
                let s = spaces_or(ch, opts);
                text.extend_from_slice(s.replace('E', eol).as_bytes());
            }
            text.extend_from_slice(t);
        }
        text.extend_from_slice(spaces_or(ch, &["", " ", "\t", "  \t", "\x0c", " \r"]).as_bytes());
        // Frames may even share a line.
        let opts: &[&str] = if motion && i + 1 < lines.len() {
            &["E", "O", " ", "\t", "\x0c", "\r"]
        } else if i + 1 == lines.len() {
            &["E", "O", ""]
        } else {
            &["E", "O"]
        };
        let s = spaces_or(ch, opts).replace('E', eol).replace('O', other);
        text.extend_from_slice(s.as_bytes());
    }
    text.extend_from_slice(spaces_or(ch, &["", "E", " ", " E", "EE\t"]).replace('E', eol).as_bytes());
    ch.note(|| show(&text));
    ch.traces(1);
    ch.state(hash_bytes(&text));
    matches(&load(&text)?, &doc)
}

fn spaces_or<'a>(ch: &mut Ch, opts: &'a [&'a str]) -> &'a &'a str {
    &opts[ch.dev(opts.len() as u32) as usize]
}

fn c04_motion(ch: &mut Ch) -> Outcome {
    // All the ways to break the motion values into lines.
    let (c, f) = *ch.pick(&[(1, 4), (2, 3), (3, 2), (6, 1), (1, 8), (4, 2), (2, 5)]);
    let doc = tiny(c, f);
    let lines = doc.lines();
    let mut text = render(&lines[..lines.len() - f], "\t", " ", "\n");
    let all: Vec<f32> = doc.frames.concat();
    for (i, v) in all.iter().enumerate() {
        text.extend_from_slice(format!("{}", v).as_bytes());
        let s: &[u8] = if i + 1 == all.len() {
            [&b"\n"[..], b""][ch.choose(2) as usize]
        } else {
            [&b" "[..], b"\n", b"\n\n"][ch.choose(if all.len() > 8 { 2 } else { 3 }) as usize]
        };
        text.extend_from_slice(s);
    }
    ch.note(|| show(&text));
    ch.traces(1);
    ch.state(hash_bytes(&text));
    matches(&load(&text)?, &doc)
}

fn c04_runs(ch: &mut Ch) -> Outcome {
    // Runs of whitespace or of unknown lines of every length, at every place of one kind.
    const SIZES: &[usize] = &[511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16_384, 65_535, 65_536, 65_537, 100_000];
    let doc = small(2);
    let place = ch.choose(12);
    let n = ch.upto(ch.bound() + SIZES.len());
    let n = if n > ch.bound() { SIZES[n - ch.bound() - 1] } else { n };
    let kinds = if place == 3 || place == 4 || place >= 8 { 1 } else { 4 };
    let sp = [" ", "\t", "\x0c", "\r"][ch.choose(kinds) as usize].repeat(n);
    let one = if n == 0 { " " } else { &sp };
    let plain = |text: &str| render(&doc.lines(), "", " ", text);
    // Put something before the line with this number.
    let before = |at: usize, what: String| {
        let text = plain("\n");
        let mut lines: Vec<&[u8]> = text.split_inclusive(|b| *b == b'\n').collect();
        let at = at.min(lines.len());
        lines.insert(at, what.as_bytes());
        lines.concat()
    };
    let lines = doc.lines().len();
    let hierarchy = doc.hierarchy_lines().len();
    let text = match place {
        0 => render(&doc.lines(), &sp, " ", "\n"),
        1 => render(&doc.lines(), "", one, "\n"),
        2 => plain(&format!("{}\n", sp)),
        3 => plain(&"\n".repeat(1 + n / 4)),
        4 => plain(&format!("\r\n{}", "\r\n".repeat(n / 4))),
        // A single line of nothing but blanks, anywhere.
        5 => {
            let at = *ch.pick(&[0, 1, 3, hierarchy - 1, hierarchy, hierarchy + 1, hierarchy + 2, lines - 1, lines]);
            before(at, format!("{}\n", sp))
        }
        // Many blank lines in one place.
        6 => {
            let at = *ch.pick(&[0, 1, hierarchy, hierarchy + 1, hierarchy + 2, hierarchy + 3, lines]);
            before(at, format!("{}\n", &sp[..n.min(1)]).repeat(n))
        }
        // A long line end after the last value, and none.
        7 => [plain("\n"), sp.clone().into_bytes()].concat(),
        // Unknown lines: many, or a long one, or one of many words.
        8 => before(*ch.pick(&[1, 3, 4, hierarchy - 1]), "Comment 1 2\n".repeat(n)),
        9 => before(*ch.pick(&[1, 3, 4, hierarchy - 1]), format!("{}\n", "x".repeat(n.max(1)))),
        10 => before(*ch.pick(&[1, 3, 4, hierarchy - 1]), format!("x{}\n", " OFFSET".repeat(n))),
        _ => before(*ch.pick(&[1, 3, 4, hierarchy - 1]), format!("# {}\u{f6}\n", "{".repeat(n))),
    };
    ch.note(|| show(&text));
    ch.traces(1);
    ch.state(hash_bytes(&text));
    matches(&load(&text)?, &doc)
}

pub static C04: Property = Property {
    id: "C04",
    level: "model_checking",
    rule: "one evaluation loads one rendering of a document, and compares it with the document; renderings are told apart by their text",
    assumptions: &["whitespace means spaces, tabs, form feeds, carriage returns and line ends"],
    suites: &[
        Suite::new("uniform", "4 documents in every combination of indentation, separators, trailing space, line ends, blank lines, and a missing last line end", c04_uniform),
        Suite::new("local", "3 documents with every set of up to so many local deviations from the conventional layout", c04_local).devs(2, 3),
        Suite::new("motion", "all the ways to break the motion values into lines", c04_motion),
        Suite::new("runs", "runs of each kind of blank, of blank lines, of unknown lines, and of the words in these, of every length up to so many, and of lengths up to 100000", c04_runs).bound(300, 9000),
    ],
};

// ---------------------------------------------------------------------------------------------
// C13: diagnosis

/// The verdict of the loader must be the verdict of the specification.
fn conforms(ch: &mut Ch, text: &[u8]) -> Outcome {
    ch.note(|| show(text));
    ch.steps(1);
    ch.traces(1);
    ch.state(hash_bytes(text));
    let want = spec_load(text);
    let got = Bvh::from_bytes(text);
    match (got, want) {
        (Ok(bvh), Ok(doc)) => {
            ch.outcome("accepted");
            matches(&bvh, &doc)
        }
        (Ok(_), Err(d)) => Err(format!("accepted, but expected {:?}", d)),
        (Err(e), Ok(_)) => Err(format!("rejected a valid document: {}", e)),
        (Err(e), Err(want)) => {
            ch.outcome(&want.name());
            let line = e.line();
            let shown = e.to_string();
            let inner_line = match e.kind() {
                LoadErrorKind::Joints(j) => j.line(),
                LoadErrorKind::Motion(m) => m.line(),
            };
            let inner = e.source().map(|s| s.to_string()).ok_or("the error has no source")?;
            let channel = e.source().and_then(|s| s.source()).map_or(false, |s| s.is::<bvh_anim::errors::ParseChannelError>());
            let got = diag_of(e);
            ensure!(got == want, "diagnosed as {:?}, expected {:?}", got, want);
            ensure!(line == want.line(), "the line is {:?}, expected {:?}", line, want.line());
            ensure!(inner_line == line, "the inner error has line {:?}", inner_line);
            ensure!(!inner.is_empty() && shown.contains(&inner), "the message {:?} does not show {:?}", shown, inner);
            if let Some(l) = line {
                ensure!(shown.contains(&l.to_string()), "the message {:?} does not show line {}", shown, l);
            }
            if let Diag::Offset(axis, _) | Diag::MissingOffset(axis, _) = got {
                let axis = ["x", "y", "z"][axis as usize];
                let mut words = shown.split(|c: char| !c.is_ascii_alphanumeric());
                ensure!(words.any(|w| w.eq_ignore_ascii_case(axis)), "the message {:?} does not show the axis {}", shown, axis);
            }
            if let Diag::Channel(..) = got {
                ensure!(channel, "the error does not lead to the bad name of a channel");
            }
            Ok(())
        }
    }
}

/// One document for every diagnosis: no two of these are described by the same words.
fn c13_messages(ch: &mut Ch) -> Outcome {
    const HEAD: &str = "HIERARCHY\nROOT a\n{\n";
    const JOINT: &str = "OFFSET 1 2 3\nCHANNELS 2 Xposition Yrotation\n}\n";
    const FAULTS: &[(bool, &str)] = &[
        (false, ""), (false, "HIERARCHY\nHIERARCHY\n"), (false, "ROOT a\n"), (false, "HIERARCHY\nROOT\n"), (false, "HIERARCHY\nJOINT a\n"),
        (false, "HIERARCHY\n}\n"), (false, "HIERARCHY\nEnd Site\n"), (false, "HIERARCHY\nOFFSET 1 2 3\n"), (false, "HIERARCHY\nCHANNELS 0\n"),
        (true, "CHANNELS\n"), (true, "CHANNELS 1 Wposition\n"), (true, "OFFSET a 2 3\n"), (true, "OFFSET 1 b 3\n"), (true, "OFFSET 1 2 c\n"),
        (true, "OFFSET\n"), (true, "OFFSET 1\n"), (true, "OFFSET 1 2\n"),
    ];
    const MOTION: &[&str] = &[
        "", "MOTION\n", "MOTION\nFrames: x\n", "MOTION\nFrames: 1\n", "MOTION\nFrames: 1\nFrame Time: x\n", "MOTION\nFrames: 1\nFrame Time: 1\nx 1\n",
        "MOTION\nFrames: 1\nFrame Time: 1\n1\n",
    ];
    let text = |k: usize| {
        let blank = "\n".repeat(k % 3);
        match FAULTS.get(k) {
            Some((false, s)) => format!("{}{}", blank, s),
            Some((true, s)) => format!("{}{}{}", blank, HEAD, s),
            None => format!("{}{}{}{}", blank, HEAD, JOINT, MOTION[k - FAULTS.len()]),
        }
    };
    let all = FAULTS.len() + MOTION.len();
    let (a, b) = (ch.upto(all - 1), ch.upto(all - 1));
    conforms(ch, text(a).as_bytes())?;
    let describe = |k: usize| -> Result<(String, String, String), String> {
        let e = Bvh::from_bytes(&text(k)).err().ok_or("accepted")?;
        let inner = e.source().map(|s| s.to_string()).ok_or("the error has no source")?;
        let frame = e.to_string().replace(&inner, "");
        let shown: String = e.to_string().chars().filter(|c| !c.is_ascii_digit()).collect();
        let d = diag_of(e);
        let axis = match d {
            Diag::Offset(axis, _) | Diag::MissingOffset(axis, _) => format!("{:?}", axis),
            _ => String::new(),
        };
        Ok((d.name() + &axis, shown, frame))
    };
    let ((kind_a, shown_a, frame_a), (kind_b, shown_b, frame_b)) = (describe(a)?, describe(b)?);
    let in_motion = |k| k >= FAULTS.len();
    ensure!(in_motion(a) == in_motion(b) || frame_a != frame_b, "{} and {} are both reported as {:?}", kind_a, kind_b, frame_a);
    ensure!(in_motion(a) != in_motion(b) || frame_a == frame_b, "{} is reported as {:?}, and {} as {:?}", kind_a, frame_a, kind_b, frame_b);
    ch.state(hash_debug(&(&kind_a, &kind_b)));
    ensure!(kind_a == kind_b || shown_a != shown_b, "{} and {} are both described as {:?}", kind_a, kind_b, shown_a);
    Ok(())
}

fn c13_lines(ch: &mut Ch) -> Outcome {
    let start = *ch.pick(CONTEXTS);
    let depth = ch.bound();
    let text = line_sequence(ch, start, ALPHABET, depth);
    conforms(ch, &text)
}
fn c13_structure(ch: &mut Ch) -> Outcome {
    let depth = ch.bound();
    let mut text = line_sequence(ch, CONTEXTS[3], STRUCTURE, depth);
    tail(ch, &mut text);
    conforms(ch, &text)
}
const FAULTS: &[&[u8]] = &[
    b"{\n", b"}\n", b"ROOT x\n", b"JOINT\n", b"End\n", b"OFFSET 1\n", b"OFFSET 1 2 z\n", b"CHANNELS z\n", b"CHANNELS 1 z\n",
    b"HIERARCHY\n", b"MOTION\n", b"Frames: z\n", b"Frame Time: z\n", b"z\n", b"1 z\n", b"1 2 3 z",
];

/// A faulty line far down, at a line whose number is around the size of a small integer.
fn c13_far(ch: &mut Ch) -> Outcome {
    let v = victims();
    let mut lines: Vec<Vec<u8>> = v[ch.upto(ch.bound())].split_inclusive(|b| *b == b'\n').map(|l| l.to_vec()).collect();
    let at = ch.upto(lines.len());
    let fault = ch.pick(FAULTS).to_vec();
    let number = *ch.pick(&[255usize, 256, 257, 32_768, 65_535, 65_536, 65_537]);
    // The lines before are anywhere above; they need not be directly before.
    let above = ch.choose(2) as usize * at;
    let fill: &[u8] = if above == 0 { b"\n" } else { b" \t\r\n" };
    lines.insert(at, fault);
    lines.splice(above..above, std::iter::repeat(fill.to_vec()).take(number - at));
    conforms(ch, &lines.concat())
}

/// A word which is no number at every place, and around the sizes of small integers, of a long line.
fn c13_wide(ch: &mut Ch) -> Outcome {
    let near = [65_535usize, 65_536, 65_537];
    let n = ch.bound();
    let at = match ch.upto(n + 2) {
        k if k < n => k,
        k => near[k - n],
    };
    let line = ch.choose(3) as usize;
    let words = at + 1 + ch.upto(1);
    let width = [words, 1, 2][ch.choose(3) as usize];
    let bad = *ch.pick(&["x", "1..2", "--3"]);
    let mut text = render(&tiny(width, 0).hierarchy_lines(), "", " ", "\n");
    text.extend_from_slice(b"MOTION\nFrames: 3\nFrame Time: 0.1\n");
    for l in 0..line {
        text.extend_from_slice(b"7 8".repeat(l).as_slice());
        text.push(b'\n');
    }
    for k in 0..words {
        text.extend_from_slice(if k == at { bad.as_bytes() } else { b"5" });
        text.push(b' ');
    }
    conforms(ch, &text)
}

fn c13_numbering(ch: &mut Ch) -> Outcome {
    // One faulty line, with blank and unknown lines anywhere before it.
    let v = victims();
    let text = ch.pick(&v).clone();
    let mut lines: Vec<Vec<u8>> = text.split_inclusive(|b| *b == b'\n').map(|l| l.to_vec()).collect();
    let at = ch.upto(lines.len());
    let fault = ch.pick(FAULTS).to_vec();
    if ch.flag() && at < lines.len() {
        lines[at] = fault;
    } else {
        lines.insert(at, fault);
    }
    let fill = [&b"\n"[..], b"\r\n", b" \t\n", b"comment 1\n"];
    let mut i = 0;
    while i <= at.min(lines.len() - 1) {
        let c = ch.dev(1 + fill.len() as u32) as usize;
        if c > 0 {
            lines.insert(i, fill[c - 1].to_vec());
            i += 1;
        }
        i += 1;
    }
    conforms(ch, &lines.concat())
}
/// Whether it is only made of words and ASCII blanks.
fn plain(text: &[u8]) -> bool {
    let blank = |c: char| c == '\x0b' || ('\x1c'..='\x1f').contains(&c) || !c.is_ascii() && c.is_whitespace();
    !text.iter().any(|b| *b >= 0x0b) || !String::from_utf8_lossy(text).contains(blank)
}
fn c13_bytes(ch: &mut Ch) -> Outcome {
    let t = damaged_bytes(ch);
    if !plain(&t) {
        return Ok(());
    }
    conforms(ch, &t)
}
fn c13_foreign(ch: &mut Ch) -> Outcome {
    let t = damaged_foreign(ch);
    if !plain(&t) {
        return Ok(());
    }
    conforms(ch, &t)
}
fn c13_tokens(ch: &mut Ch) -> Outcome {
    let t = damaged_tokens(ch);
    if !plain(&t) {
        return Ok(());
    }
    conforms(ch, &t)
}
fn c13_rearranged(ch: &mut Ch) -> Outcome {
    let t = damaged_lines(ch);
    conforms(ch, &t)
}
fn c13_sweep(ch: &mut Ch) -> Outcome {
    // A fault at the end of something large.
    let n = ch.bound();
    let doc = sweep(ch, n);
    let mut lines = doc.hierarchy_lines();
    let few = lines.iter().map(|l| l.tokens.iter().map(|t| t.len()).sum::<usize>()).sum::<usize>() <= 2500;
    let cut = ch.choose(if few || (257..260).contains(&doc.joints.len()) { 5 } else { 4 }) as usize;
    if cut == 4 {
        // Any fault before any of the last lines of the hierarchy, or the first ones.
        let extra: [&[u8]; 4] = [b"End Site\n", b"JOINT x\n", b"OFFSET 1 2 3\n", b"CHANNELS 1 Xposition\n"];
        let k = ch.upto(FAULTS.len() + extra.len() - 1);
        let fault = if k < FAULTS.len() { FAULTS[k] } else { extra[k - FAULTS.len()] };
        let at = ch.upto(9);
        let at = if at < 8 { lines.len() - at.min(lines.len() - 1) } else { [4, 7][at - 8].min(lines.len()) };
        let mut text = render(&lines[..at], "", " ", "\n");
        text.extend_from_slice(fault);
        text.extend(render(&lines[at..], "", " ", "\n"));
        text.extend_from_slice(b"MOTION\nFrames: 0\nFrame Time: 1\n");
        return conforms(ch, &text);
    }
    let mut text = match cut {
        0 => render(&lines[..lines.len() - 1], "", " ", "\n"),
        1 => {
            lines.push(Line { depth: 0, tokens: vec![b"}".to_vec()] });
            render(&lines, "", " ", "\n")
        }
        2 => {
            let k = lines.len() - 2;
            lines.insert(k, Line { depth: 0, tokens: vec![b"{".to_vec()] });
            render(&lines, "", " ", "\n")
        }
        _ => doc.text(),
    };
    if cut == 3 {
        text.extend_from_slice(b"1 2 x\n");
    }
    conforms(ch, &text)
}

pub static C13: Property = Property {
    id: "C13",
    level: "model_checking",
    rule: "one evaluation loads one document, and compares acceptance, contents, kind and line of the error with the reference automaton; documents are told apart by their bytes",
    assumptions: &["whitespace beyond ASCII is left out", "numbers are what the standard library reads as numbers"],
    suites: &[
        Suite::new("lines", "from 18 points of a document, every sequence of lines out of an alphabet of 35, extended until the specification rejects it", c13_lines).bound(3, 4),
        Suite::new("structure", "every sequence of structural lines in the hierarchy, with every ending", c13_structure).bound(7, 9),
        Suite::new("numbering", "16 faults at every line of 4 documents, with blank and unknown lines before", c13_numbering).devs(1, 2),
        Suite::new("far", "16 faults at every line of a document (thorough: 3), with that many lines before that the fault is on a line around 2^8, 2^15 and 2^16", c13_far).bound(0, 2),
        Suite::new("wide", "3 words which are no numbers at every place of a long line of values, and around the 2^16th, in skeletons of 3 widths, after 0 to 2 lines", c13_wide).bound(270, 1100),
        Suite::new("messages", "every diagnosis and every other: all pairs of 24 documents, and their messages", c13_messages),
        Suite::new("bytes", "4 documents: every truncation, and every byte replaced, inserted or deleted, at every position", c13_bytes),
        Suite::new("foreign", "4 documents: strings which other formats allow (comments, marks, other ways to write numbers) at every position, every word in other cases, doubled, shortened, joined or quoted", c13_foreign),
        Suite::new("tokens", "every token replaced by every hostile token, with one of the tokens which follow", c13_tokens).bound(2, 5),
        Suite::new("rearranged", "lines deleted, repeated, swapped and joined", c13_rearranged).bound(2, 2),
        Suite::new("sweep", "20 faults near the ends of documents which are large in one dimension", c13_sweep).bound(60, 300),
    ],
};

// ---------------------------------------------------------------------------------------------
// C14: torn files

fn c14_cut(ch: &mut Ch) -> Outcome {
    let which = ch.choose(8);
    let frames = ch.upto(ch.bound());
    let doc = match which {
        0 => tiny(1, frames),
        1 => tiny(3, frames),
        2 => small(frames),
        3 => chain(4, 2, frames),
        4 => star(5, 1, frames),
        5 => make_doc(&[None, Some(0), Some(1), Some(1), Some(0)], &[3, 0, 1, 2, 0], &[false, false, true, true, true], frames, 5),
        6 => make_doc(&[None, Some(0), Some(0)], &[6, 3, 3], &[true, false, false], frames, 9),
        _ => make_doc(&[None], &[0], &[true], 0, 0),
    };
    let eol = *ch.pick(&["\n", "\r\n"]);
    let text = render(&doc.lines(), "  ", " ", eol);
    let cut = ch.upto(text.len() - 1);
    torn(ch, &doc, &text, cut)
}

/// The text of the document, cut.
fn torn(ch: &mut Ch, doc: &MDoc, text: &[u8], cut: usize) -> Outcome {
    let torn = &text[..cut];
    ch.note(|| format!("cut at {} of {}:\n{}", cut, text.len(), show(torn)));
    ch.traces(1);
    ch.state(hash_bytes(torn));
    // What is missing, without the line ends at the end.
    let significant = text.iter().rposition(|b| !b.is_ascii_whitespace()).unwrap() + 1;
    match Bvh::from_bytes(torn) {
        Err(_) => {
            ch.outcome("rejected");
            // With only line ends missing, nothing is missing.
            ensure!(cut < significant, "rejected, with only the last line end missing");
            Ok(())
        }
        Ok(bvh) => {
            let got = observe(&bvh)?;
            if cut >= significant {
                ch.outcome("complete");
                return same(&got, doc);
            }
            // Only the digits of the very last number may have been cut, which cannot be noticed.
            ch.outcome("last number cut");
            let last_token = text[..significant].iter().rposition(|b| b.is_ascii_whitespace()).unwrap() + 1;
            ensure!(cut > last_token, "accepted, although whole values are missing");
            let mut want = doc.clone();
            let shorter = std::str::from_utf8(&torn[last_token..]).unwrap();
            if let Some(f) = want.frames.last_mut() {
                *f.last_mut().unwrap() = shorter.parse().map_err(|_| "accepted a torn number")?;
            } else {
                want.frame_time = std::time::Duration::from_secs_f64(shorter.parse().map_err(|_| "accepted a torn number")?);
            }
            same(&got, &want)
        }
    }
}

/// Large documents, cut near their ends, at the ends of lines and around powers of two.
fn c14_large(ch: &mut Ch) -> Outcome {
    use std::sync::OnceLock;
    static DOCS: OnceLock<Vec<(MDoc, Vec<u8>, Vec<usize>)>> = OnceLock::new();
    let docs = DOCS.get_or_init(|| {
        let docs = vec![chain(300, 1, 2), star(400, 2, 1), tiny(400, 40), tiny(3, 3000), tiny(1, 5000), tiny(6000, 2), bulky().swap_remove(3), chain(40, 6, 300)];
        docs.into_iter()
            .map(|d| {
                let text = d.text();
                let len = text.len();
                let mut cuts: Vec<usize> = (0..60).chain(len.saturating_sub(400)..len).collect();
                cuts.extend((7..22).flat_map(|k| (1usize << k) - 2..=(1 << k) + 2));
                let ends: Vec<usize> = (0..len).filter(|i| text[*i] == b'\n').collect();
                let motion = text.windows(7).position(|w| w == b"\nMOTION").unwrap();
                // The ends of at most 900 lines, evenly, and of all lines around the sections.
                let step = ends.len().div_ceil(900);
                for (i, e) in ends.iter().enumerate() {
                    if i % step == 0 {
                        cuts.extend([*e, e + 1]);
                    }
                    if (motion.saturating_sub(60)..motion + 400).contains(e) {
                        cuts.extend([e - 1, *e, e + 1, e + 2]);
                    }
                }
                cuts.extend(motion.saturating_sub(40)..motion + 120);
                cuts.retain(|c| *c < len);
                cuts.sort_unstable();
                cuts.dedup();
                (d, text, cuts)
            })
            .collect()
    });
    let which = ch.choose(docs.len() as u32) as usize;
    let (doc, text, cuts) = &docs[which];
    let cut = *ch.pick(cuts);
    torn(ch, doc, text, cut)
}

pub static C14: Property = Property {
    id: "C14",
    level: "model_checking",
    rule: "one evaluation loads one proper prefix of a valid document; prefixes are told apart by their bytes",
    assumptions: &["a cut within the digits of the last number cannot be noticed by any loader"],
    suites: &[
        Suite::new("cut", "8 skeletons with every number of frames, written with both line ends, cut at every offset", c14_cut).bound(4, 12),
        Suite::new("large", "8 large documents, cut at every offset near the ends of the file and of its sections, at the ends of lines, and around every power of two", c14_large),
    ],
};

// ---------------------------------------------------------------------------------------------
// C15: motion counts

fn c15_counts(ch: &mut Ch) -> Outcome {
    let max = ch.bound();
    let channels = ch.upto(max);
    let declared = ch.upto(max);
    let present = ch.upto(max * max + 2);
    let split = ch.choose(3);
    let shape = ch.choose(3);
    let doc = match shape {
        0 => tiny(channels, 0),
        1 => make_doc(&[None, Some(0)], &[0, channels], &[false, true], 0, 0),
        _ => make_doc(&[None, Some(0)], &[channels / 2, channels - channels / 2], &[false, true], 0, 0),
    };
    let mut text = render(&doc.hierarchy_lines(), "", " ", "\n");
    text.extend_from_slice(format!("MOTION\nFrames: {}\nFrame Time: 0.1\n", declared).as_bytes());
    for i in 0..present {
        text.extend_from_slice(format!("{}", i as f32 + 0.5).as_bytes());
        let nl = match split {
            0 => channels > 0 && (i + 1) % channels == 0,
            1 => false,
            _ => true,
        };
        text.push(if nl { b'\n' } else { b' ' });
    }
    count_verdict(ch, &text, channels, declared as u128, present)
}

/// Few frames of more channels, with every number of values up to a frame too many.
fn c15_single(ch: &mut Ch) -> Outcome {
    let channels = 1 + ch.upto(ch.bound() - 1);
    let declared = ch.upto(3);
    let present = ch.upto((declared + 1) * channels + 1);
    let doc = match ch.choose(2) {
        0 => tiny(channels, 0),
        _ => make_doc(&[None, Some(0), Some(0)], &[channels / 3, channels / 3, channels - channels / 3 * 2], &[false, true, true], 0, 0),
    };
    let mut text = render(&doc.hierarchy_lines(), "", " ", "\n");
    text.extend_from_slice(format!("MOTION\nFrames: {}\nFrame Time: 0.1\n", declared).as_bytes());
    for i in 0..present {
        text.extend_from_slice(format!("{}", i as f32 + 0.5).as_bytes());
        text.push(if (i + 1) % channels == 0 { b'\n' } else { b' ' });
    }
    count_verdict(ch, &text, channels, declared as u128, present)
}

fn count_verdict(ch: &mut Ch, text: &[u8], channels: usize, declared: u128, present: usize) -> Outcome {
    ch.note(|| show(text));
    ch.traces(1);
    ch.state(hash_bytes(text));
    let expected = declared * channels as u128;
    match Bvh::from_bytes(text) {
        Ok(bvh) => {
            ch.outcome("accepted");
            ensure!(expected == present as u128, "accepted {} values for {} frames of {}", present, declared, channels);
            let frames = observe_frames(&bvh)?;
            let flat: Vec<f32> = frames.concat();
            ensure!(flat.len() == present, "{} values loaded, of {}", flat.len(), present);
            ensure!((0..present).all(|i| flat[i] == i as f32 + 0.5), "other values: {:?}", &flat[..present.min(50)]);
            if channels > 0 {
                ensure!(frames.len() as u128 == declared, "{} frames loaded, of {}", frames.len(), declared);
            }
            Ok(())
        }
        Err(e) => {
            let (line, shown) = (e.line(), e.to_string());
            let d = diag_of(e);
            ch.outcome(&d.name());
            ensure!(expected != present as u128, "rejected {} values for {} frames of {}: {:?}", present, declared, channels, d);
            match d {
                Diag::Count { actual, expected: ex, frames, channels: c } => {
                    ensure!(actual == present, "reports {} values found, there are {}", actual, present);
                    ensure!(ex == expected.min(usize::MAX as u128) as usize, "reports {} values expected, instead of {}", ex, expected);
                    ensure!(frames as u128 == declared, "reports {} frames, instead of {}", frames, declared);
                    ensure!(c == channels, "reports {} channels, instead of {}", c, channels);
                    ensure!(line.is_none(), "a wrong number of values has the line {:?}", line);
                    // The message names what is reported: every number, as often as it is due.
                    let mut numbers: Vec<usize> = shown.split(|c: char| !c.is_ascii_digit()).filter_map(|n| n.parse().ok()).collect();
                    let mut due = vec![ex, actual, frames, c];
                    ensure!(numbers == due || { numbers.sort(); due.sort(); numbers == due && !shown.starts_with("Could not load motion: expected to find") }, "the message is {:?}", shown);
                    Ok(())
                }
                other => Err(format!("diagnosed as {:?} instead of a wrong number of values", other)),
            }
        }
    }
}

fn c15_huge(ch: &mut Ch) -> Outcome {
    // Declared counts at which products and capacities wrap around.
    let channels = ch.upto(ch.bound());
    let base: u128 = *ch.pick(&[
        1 << 8, 1 << 15, 1 << 16, 1 << 17, 1 << 24, 1 << 29, 1 << 30, 1 << 31, 1 << 32, 1 << 33, 1 << 40, 1 << 60, 1 << 61,
        1 << 62, 1 << 63, (1 << 64) / 3, (1 << 64) / 5, (1 << 64) / 6, (1 << 64) / 7, (1 << 64) - 4,
    ]);
    let declared = base + ch.upto(6) as u128 - 3;
    if declared >= 1 << 64 {
        return Ok(());
    }
    let present = ch.upto(4);
    let doc = tiny(channels, 0);
    let mut text = render(&doc.hierarchy_lines(), "", " ", "\n");
    text.extend_from_slice(format!("MOTION\nFrames: {}\nFrame Time: 0.1\n", declared).as_bytes());
    for i in 0..present {
        text.extend_from_slice(format!("{}\n", i as f32 + 0.5).as_bytes());
    }
    count_verdict(ch, &text, channels, declared, present)
}

fn c15_near(ch: &mut Ch) -> Outcome {
    // Large documents which are off by a few values.
    let sizes: &[(usize, usize)] = &[(1, 100), (1, 65535), (1, 65536), (1, 65537), (3, 1000), (7, 9363), (96, 700), (257, 256), (1, 70000)];
    let (channels, declared) = *ch.pick(sizes);
    let off = ch.upto(8) as isize - 4;
    let by_frames = ch.flag();
    let total = (channels * declared) as isize + if by_frames { off * channels as isize } else { off };
    if total < 0 {
        return Ok(());
    }
    let present = total as usize;
    let doc = tiny(channels, 0);
    let mut text = render(&doc.hierarchy_lines(), "", " ", "\n");
    text.extend_from_slice(format!("MOTION\nFrames: {}\nFrame Time: 0.1\n", declared).as_bytes());
    for i in 0..present {
        text.extend_from_slice(format!("{}.5{}", i, if (i + 1) % channels == 0 { '\n' } else { ' ' }).as_bytes());
    }
    count_verdict(ch, &text, channels, declared as u128, present)
}

pub static C15: Property = Property {
    id: "C15",
    level: "model_checking",
    rule: "one evaluation loads one document with a number of channels, a declared number of frames and a number of values; told apart by their text",
    assumptions: &[],
    suites: &[
        Suite::new("counts", "every number of channels, of declared frames and of values present, in 3 skeletons and 3 arrangements", c15_counts).bound(6, 12),
        Suite::new("single", "0 to 3 frames of up to so many channels, with every number of values up to a frame too many", c15_single).bound(70, 200),
        Suite::new("huge", "declared numbers of frames around every power of two and quotient at which a product wraps", c15_huge).bound(9, 40),
        Suite::new("near", "large documents with up to 4 values or frames too many or too few", c15_near),
    ],
};

// ---------------------------------------------------------------------------------------------
// C19: memory

const BASE_BYTES: usize = 1 << 20;
const PER_BYTE: usize = 256;

fn bounded(ch: &mut Ch, text: &[u8]) -> Outcome {
    ch.note(|| show(text));
    ch.traces(1);
    ch.state(hash_bytes(text));
    let (ok, peak, largest) = measure(|| Bvh::from_bytes(text).is_ok());
    ch.outcome(if ok { "accepted" } else { "rejected" });
    ch.outcome(&format!("peak < 2^{}", 64 - peak.leading_zeros()));
    let limit = BASE_BYTES + PER_BYTE * text.len();
    ensure!(peak <= limit, "used {} bytes for a document of {} bytes", peak, text.len());
    ensure!(largest <= limit, "asked for {} bytes at once for a document of {} bytes", largest, text.len());
    Ok(())
}

fn big_counts() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for p in 0..64u32 {
        let b: u128 = 1 << p;
        for d in [-1i128, 0, 1] {
            v.push((b as i128 + d).to_string());
        }
    }
    for d in [3u128, 4, 5, 6, 7, 12, 24] {
        v.push(((1u128 << 64) / d).to_string());
        v.push(((1u128 << 64) / d + 1).to_string());
    }
    v.extend(["18446744073709551615", "18446744073709551616", "99999999999999999999999"].map(String::from));
    v
}

fn c19_declared(ch: &mut Ch) -> Outcome {
    let counts = big_counts();
    let which = ch.choose(4);
    let n = ch.pick(&counts).clone();
    let k = ch.upto(ch.bound());
    let types = vec!["Xposition"; k].join(" ");
    let text = match which {
        0 => format!("HIERARCHY\nROOT a\n{{\nOFFSET 0 0 0\nCHANNELS {k} {types}\n}}\nMOTION\nFrames: {n}\nFrame Time: 0.1\n1\n"),
        1 => format!("HIERARCHY\nROOT a\n{{\nOFFSET 0 0 0\nCHANNELS {n} {types}\n}}\nMOTION\nFrames: 1\nFrame Time: 0.1\n"),
        2 => format!("HIERARCHY\nROOT a\n{{\nJOINT b\n{{\nCHANNELS {n} {types}\n}}\n}}\nMOTION\nFrames: {n}\nFrame Time: 0.1\n"),
        _ => format!("HIERARCHY\nROOT a\n{{\nCHANNELS {n} {types}\nJOINT b\n{{\nCHANNELS {n} {types}\n"),
    };
    bounded(ch, text.as_bytes())
}
fn c19_large(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let doc = sweep(ch, n);
    let mut text = doc.text();
    if ch.flag() {
        text.truncate(text.len() - 2);
    }
    bounded(ch, &text)
}
fn c19_tokens(ch: &mut Ch) -> Outcome {
    let t = damaged_tokens(ch);
    bounded(ch, &t)
}
fn c19_insert(ch: &mut Ch) -> Outcome {
    // The size hint of an iterator is as little to be trusted as a file.
    let counts = big_counts();
    let n: usize = ch.pick(&counts).parse().unwrap_or(usize::MAX);
    let channels = ch.upto(4);
    let given = ch.upto(3);
    let start = ch.upto(2);
    let upper = ch.upto(1);
    if n as u128 * channels as u128 * 4 > 1 << 20 && n < 1 << 40 {
        // To reserve what the caller promises is not wrong.
        return Ok(());
    }
    let doc = tiny(channels, start);
    let mut bvh = load(&doc.text())?;
    let frame = vec![1.5f32; channels];
    struct Lying<'a>(Vec<&'a Vec<f32>>, usize, bool);
    impl<'a> Iterator for Lying<'a> {
        type Item = &'a Vec<f32>;
        fn next(&mut self) -> Option<&'a Vec<f32>> {
            self.0.pop()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (self.1, if self.2 { Some(self.1) } else { None })
        }
    }
    ch.note(|| format!("{} frames of {} channels, with a size hint of {}", given, channels, n));
    ch.traces(1);
    ch.state(hash_debug(&(n, channels, given, start, upper)));
    let list = vec![&frame; given];
    let (r, peak, _) = measure(|| bvh.frame_cursor().try_insert_frames(Lying(list, n, upper == 1)).map(|_| ()));
    ensure!(r.is_ok(), "the frames were not inserted");
    ensure!(peak < (4 << 20), "used {} bytes", peak);
    let frames = observe_frames(&bvh)?;
    let want = if channels == 0 { 0 } else { start + given };
    ensure!(frames.len() == want, "{} frames, expected {}", frames.len(), want);
    Ok(())
}

pub static C19: Property = Property {
    id: "C19",
    level: "model_checking",
    rule: "one evaluation loads one document under an allocator which measures the peak and the largest request; documents are told apart by their text",
    assumptions: &["the bound is 1 MiB and 256 bytes for every byte of the document"],
    suites: &[
        Suite::new("declared", "around every power of two, declared as the number of frames or channels, with 0 to so many channels", c19_declared).bound(7, 24),
        Suite::new("insert", "frames inserted from iterators whose size hint is around every power of two", c19_insert),
        Suite::new("large", DIMENSIONS, c19_large).bound(60, 300),
        Suite::new("tokens", "every token replaced by every hostile token, with one of the tokens which follow", c19_tokens).bound(1, 2),
    ],
};
