//! Writing, and the behaviour of readers and writers.

use super::gen::*;
use crate::engine::*;
use crate::model::*;
use crate::spec::*;
use bvh_anim::errors::{LoadErrorKind, LoadJointsError, LoadMotionError};
use bvh_anim::write::{IndentStyle, LineTerminator, WriteOptions};
use bvh_anim::Bvh;
use std::io::{self, BufRead, ErrorKind, Read, Write};
use std::num::NonZeroUsize;
use std::time::Duration;

// ---------------------------------------------------------------------------------------------
// The reference writer.

#[derive(Clone, Debug)]
pub struct Opts {
    /// None: tabs; Some(n): n spaces.
    pub spaces: Option<usize>,
    pub windows: bool,
    pub offset: Option<usize>,
    pub time: Option<usize>,
    pub motion: Option<usize>,
}

impl Opts {
    pub const DEFAULT: Opts = Opts { spaces: None, windows: false, offset: None, time: None, motion: None };

    pub fn indent(&self) -> IndentStyle {
        match self.spaces {
            None => IndentStyle::Tabs,
            Some(n) => NonZeroUsize::new(n).map_or(IndentStyle::NoIndentation, IndentStyle::Spaces),
        }
    }
    pub fn eol(&self) -> LineTerminator {
        if self.windows { LineTerminator::Windows } else { LineTerminator::Unix }
    }
    /// As set through the public fields.
    pub fn fields(&self) -> WriteOptions {
        let mut o = WriteOptions::default();
        o.indent = self.indent();
        o.line_terminator = self.eol();
        o.offset_significant_figures = self.offset;
        o.frame_time_significant_figures = self.time;
        o.motion_values_significant_figures = self.motion;
        o
    }
    /// As set through the methods, in another order.
    pub fn built(&self) -> WriteOptions {
        let indent = match self.spaces {
            None => IndentStyle::Tabs,
            Some(n) => IndentStyle::with_spaces(n),
        };
        WriteOptions::new()
            .with_motion_values_significant_figures(self.motion)
            .with_frame_time_significant_figures(self.time)
            .with_offset_significant_figures(self.offset)
            .with_line_terminator(self.eol())
            .with_indent(indent)
    }
}

fn decimal(v: f32, digits: Option<usize>) -> Vec<u8> {
    match digits {
        Some(d) => format!("{:.*}", d, v),
        None => format!("{}", v),
    }
    .into_bytes()
}

pub fn reference_text(doc: &MDoc, o: &Opts) -> Vec<u8> {
    let mut lines: Vec<Line> = if doc.joints.is_empty() {
        vec![Line { depth: 0, tokens: vec![b"HIERARCHY".to_vec()] }]
    } else {
        doc.hierarchy_lines()
    };
    for l in lines.iter_mut() {
        if l.tokens[0] == b"OFFSET" {
            for t in l.tokens[1..].iter_mut() {
                let v: f32 = std::str::from_utf8(t).unwrap().parse().unwrap();
                *t = decimal(v, o.offset);
            }
        }
    }
    let one = |s: Vec<u8>| Line { depth: 0, tokens: vec![s] };
    lines.push(one(b"MOTION".to_vec()));
    lines.push(one(format!("Frames: {}", doc.frames.len()).into_bytes()));
    let secs = doc.frame_time.as_secs_f64();
    lines.push(one(match o.time {
        Some(d) => format!("Frame Time: {:.*}", d, secs).into_bytes(),
        None => format!("Frame Time: {}", secs).into_bytes(),
    }));
    for f in &doc.frames {
        lines.push(Line { depth: 0, tokens: f.iter().map(|v| decimal(*v, o.motion)).collect() });
    }
    let indent = o.spaces.map_or("\t".to_string(), |n| " ".repeat(n));
    render(&lines, &indent, " ", if o.windows { "\r\n" } else { "\n" })
}

/// Without the spaces at the ends of lines.
fn tidy(text: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(text.len());
    for l in text.split_inclusive(|b| *b == b'\n') {
        let end = l.iter().rposition(|b| *b != b'\n' && *b != b'\r').map_or(0, |k| k + 1);
        let mut body = &l[..end];
        while let [rest @ .., b' '] = body {
            body = rest;
        }
        out.extend_from_slice(body);
        out.extend_from_slice(&l[end..]);
    }
    out
}

fn first_difference(got: &[u8], want: &[u8]) -> String {
    let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let from = k.saturating_sub(30);
    format!(
        "written text differs at byte {}: {:?}, expected {:?}",
        k,
        show(&got[from..got.len().min(k + 40)]),
        show(&want[from..want.len().min(k + 40)])
    )
}

fn written_as(ch: &mut Ch, doc: &MDoc, bvh: &Bvh, o: &Opts) -> Outcome {
    let want = reference_text(doc, o);
    ch.note(|| format!("{:?}\n{}", o, show(&want)));
    ch.traces(1);
    ch.state(hash_bytes(&want));
    let opts = o.fields();
    ensure!(o.built() == opts, "the options differ, when built by the methods: {:?}, {:?}", o.built(), opts);
    let got = opts.write_to_string(bvh);
    if tidy(&got) != want {
        return Err(first_difference(&tidy(&got), &want));
    }
    let mut sunk = vec![];
    opts.write(bvh, &mut sunk).map_err(|e| format!("writing to a vector fails: {}", e))?;
    ensure!(sunk == got, "write() and write_to_string() differ: {}", first_difference(&sunk, &got));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C06

fn c06_options(ch: &mut Ch) -> Outcome {
    const DIGITS: [Option<usize>; 9] = [None, Some(0), Some(1), Some(2), Some(3), Some(6), Some(9), Some(17), Some(40)];
    let docs = [small(2), tiny(2, 1), make_doc(&[None, Some(0), Some(0)], &[0, 1, 0], &[true, false, true], 2, 3)];
    let doc = ch.pick(&docs).clone();
    let spaces = [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(8)];
    let o = Opts {
        spaces: *ch.pick(&spaces),
        windows: ch.flag(),
        offset: *ch.pick(&DIGITS),
        time: *ch.pick(&DIGITS),
        motion: *ch.pick(&DIGITS),
    };
    written_as(ch, &doc, &load(&doc.text())?, &o)
}

fn some_options(ch: &mut Ch) -> Opts {
    [
        Opts::DEFAULT,
        Opts { spaces: Some(2), windows: true, offset: Some(4), time: Some(7), motion: Some(2) },
        Opts { spaces: Some(0), windows: false, offset: None, time: Some(3), motion: Some(0) },
    ][ch.choose(3) as usize]
        .clone()
}

fn c06_shapes(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let doc = skeleton(ch, n, &[0, 1, 3], 1);
    let o = some_options(ch);
    written_as(ch, &doc, &load(&doc.text())?, &o)
}
fn c06_trees(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let doc = tree_doc(ch, n, 1);
    let o = some_options(ch);
    written_as(ch, &doc, &load(&doc.text())?, &o)
}
fn c06_sweep(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let doc = sweep(ch, n);
    let o = some_options(ch);
    written_as(ch, &doc, &load(&doc.text())?, &o)
}
fn c06_giant(ch: &mut Ch) -> Outcome {
    let doc = giant(ch);
    let o = Opts { spaces: Some(0), windows: false, offset: None, time: None, motion: None };
    written_as(ch, &doc, &load(&unindented(&doc))?, &o)
}
fn c06_bulky(ch: &mut Ch) -> Outcome {
    let docs = bulky();
    let doc = ch.pick(&docs);
    let o = some_options(ch);
    written_as(ch, doc, &load(&doc.text())?, &o)
}
/// A skeleton in which one joint has the name, with others which the name could be mistaken for.
fn named(ch: &mut Ch) -> Option<MDoc> {
    let bound = ch.bound();
    let name = name(ch, bound)?;
    let which = ch.upto(2);
    let mut doc = make_doc(&[None, Some(0), Some(0)], &[1, 1, 1], &[false, true, true], 1, 0);
    doc.joints[which].name = name;
    Some(doc)
}
fn c06_names(ch: &mut Ch) -> Outcome {
    let doc = match named(ch) {
        Some(doc) => doc,
        None => return Ok(()),
    };
    let o = some_options(ch);
    written_as(ch, &doc, &load(&doc.text())?, &o)
}
fn c06_depth(ch: &mut Ch) -> Outcome {
    // Every indentation width at every depth.
    let depth = 1 + ch.upto(ch.bound() - 1);
    let wide = [25usize, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 5000];
    let narrow = ch.bound() + 1;
    let k = ch.upto(narrow + wide.len() - 1);
    let spaces = if k < narrow { k } else { wide[k - narrow] };
    if depth > 3 && spaces > ch.bound() {
        return Ok(());
    }
    ensure!(IndentStyle::with_spaces(spaces) == Opts { spaces: Some(spaces), ..Opts::DEFAULT }.indent(), "{} spaces are {:?}", spaces, IndentStyle::with_spaces(spaces));
    let doc = chain(depth, 1, 1);
    let o = Opts { spaces: Some(spaces), ..Opts::DEFAULT };
    written_as(ch, &doc, &load(&doc.text())?, &o)
}
fn c06_digits(ch: &mut Ch) -> Outcome {
    // Every number of decimals, for every kind of value, in every place.
    let digits = ch.upto(ch.bound());
    let place = ch.choose(3);
    const V: [f32; 22] = [
        0.0, -0.0, 0.5, 1.5, 2.5, 0.05, 0.95, 9.995, 99.5, -0.04, 1e-10, 1e-45, 3.4028235e38, 123456.79, 16777216.0, -33.333332,
        f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 0.1, 0.125, -1e20,
    ];
    let v = *ch.pick(&V);
    let mut doc = tiny(2, 2);
    let mut o = Opts::DEFAULT;
    match place {
        0 => {
            doc.joints[0].offset[1] = v;
            doc.joints[0].end_site = Some([1.25, 2.0, v]);
            o.offset = Some(digits);
        }
        1 => {
            doc.frames[1][0] = v;
            o.motion = Some(digits);
        }
        _ => {
            if !v.is_finite() || v < 0.0 || v > 1e9 {
                return Ok(());
            }
            doc.frame_time = Duration::from_secs_f64(v as f64);
            o.time = Some(digits);
        }
    }
    written_as(ch, &doc, &load(&doc.text())?, &o)
}
fn c06_empty(ch: &mut Ch) -> Outcome {
    // Animations without joints.
    let mut bvh = [Bvh::new(), Bvh::default()][ch.choose(2) as usize].clone();
    let doc = MDoc { joints: vec![], frames: vec![], frame_time: frame_time(ch) };
    bvh.set_frame_time(doc.frame_time);
    let o = some_options(ch);
    written_as(ch, &doc, &bvh, &o)
}

pub static C06: Property = Property {
    id: "C06",
    level: "model_checking",
    rule: "one evaluation writes one animation with one set of options, and compares the text byte for byte with a reference writer; told apart by the text",
    assumptions: &["spaces at the end of a line are not compared", "the standard library formats numbers correctly"],
    suites: &[
        Suite::new("options", "3 animations with every combination of 7 indentations, 2 line ends, and 9 precisions for each kind of value", c06_options),
        Suite::new("shapes", "every tree, with 0, 1 or 3 channels and with or without an end site for every joint, with 3 sets of options", c06_shapes).bound(4, 5),
        Suite::new("trees", "every tree with up to so many joints, with 3 sets of options", c06_trees).bound(7, 9),
        Suite::new("sweep", DIMENSIONS, c06_sweep).bound(70, 300),
        Suite::new("giant", "6 skeletons of more than 2^16 joints", c06_giant),
        Suite::new("depth", "every number of spaces at every depth, and up to 5000 spaces", c06_depth).bound(20, 60),
        Suite::new("digits", "every number of decimals for 22 values in every place", c06_digits).bound(160, 400),
        Suite::new("names", "names: every byte, every string over 11 bytes, keywords of the format, with 3 sets of options", c06_names).bound(3, 4),
        Suite::new("bulky", "8 animations with lines up to more than a megabyte or thousands of lines", c06_bulky),
        Suite::new("empty", "animations without joints", c06_empty),
    ],
};

// ---------------------------------------------------------------------------------------------
// C05

fn layout_options(ch: &mut Ch) -> Opts {
    let spaces = [None, Some(0), Some(1), Some(4)];
    Opts { spaces: *ch.pick(&spaces), windows: ch.flag(), ..Opts::DEFAULT }
}

fn round_trip(ch: &mut Ch, doc: &MDoc, bvh: &Bvh, o: &Opts) -> Outcome {
    let opts = o.fields();
    let text = opts.write_to_string(bvh);
    ch.note(|| format!("{:?}\n{}", o, show(&text)));
    ch.steps(2);
    ch.traces(1);
    ch.state(hash_bytes(&text));
    let again = Bvh::from_bytes(&text).map_err(|e| format!("what was written is rejected: {}\n{}", e, show(&text)))?;
    matches(&again, doc)?;
    let plain = |d: &MDoc| {
        d.joints.iter().all(|j| j.offset.iter().chain(j.end_site.iter().flatten()).all(|v| !v.is_nan()))
            && d.frames.iter().flatten().all(|v| !v.is_nan())
    };
    if plain(doc) {
        ensure!(again == *bvh, "the reloaded animation is not equal to the one which was written");
    }
    let twice = opts.write_to_string(&again);
    ensure!(twice == text, "written again, it differs: {}", first_difference(&twice, &text));
    Ok(())
}

fn c05_shapes(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let doc = skeleton(ch, n, &[0, 1, 3], 2);
    let o = layout_options(ch);
    round_trip(ch, &doc, &load(&doc.text())?, &o)
}
fn c05_trees(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let doc = tree_doc(ch, n, 1);
    let o = layout_options(ch);
    round_trip(ch, &doc, &load(&doc.text())?, &o)
}
fn c05_sweep(ch: &mut Ch) -> Outcome {
    let n = ch.bound();
    let doc = sweep(ch, n);
    let o = layout_options(ch);
    round_trip(ch, &doc, &load(&doc.text())?, &o)
}
/// Options which write every digit.
fn full_options(ch: &mut Ch) -> Opts {
    let o = layout_options(ch);
    match ch.choose(3) {
        0 => o,
        1 => Opts { offset: Some(149), time: Some(60), motion: Some(149), ..o },
        _ => Opts { offset: Some(170), time: Some(9), motion: None, ..o },
    }
}
fn c05_names(ch: &mut Ch) -> Outcome {
    let doc = match named(ch) {
        Some(doc) => doc,
        None => return Ok(()),
    };
    let o = layout_options(ch);
    round_trip(ch, &doc, &load(&doc.text())?, &o)
}
fn c05_values(ch: &mut Ch) -> Outcome {
    const V: [u32; 20] = [
        0, 0x8000_0000, 1, 0x8000_0001, 0x007f_ffff, 0x0080_0000, 0x3f80_0000, 0x3f80_0001, 0x3f7f_ffff, 0x7f7f_ffff,
        0xff7f_ffff, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x4b00_0000, 0x4b80_0001, 0x3dcc_cccd, 0x5f00_0000, 0x2edb_e6ff,
        0xc2f6_e979,
    ];
    let v = f32::from_bits(*ch.pick(&V));
    let w = f32::from_bits(*ch.pick(&V));
    let mut doc = small(2);
    doc.frame_time = frame_time(ch);
    let k = ch.choose(4);
    match k {
        0 => doc.joints[0].offset = [v, w, v],
        1 => doc.joints[2].offset = [w, v, 1.0],
        2 => doc.joints[3].end_site = Some([v, 0.0, w]),
        _ => {
            doc.frames[0][0] = v;
            doc.frames[1][11] = w;
        }
    }
    let o = full_options(ch);
    round_trip(ch, &doc, &load(&doc.text())?, &o)
}
fn c05_edited(ch: &mut Ch) -> Outcome {
    // What was edited in memory is written, too.
    let start = ch.upto(2);
    let channels = ch.upto(3);
    let mut doc = chain(2, channels, start);
    let mut bvh = load(&doc.text())?;
    let width = doc.width();
    let mut fresh = Values(100);
    for _ in 0..ch.bound() {
        match ch.choose(4) {
            0 => break,
            1 => {
                let at = ch.upto(doc.frames.len());
                let f = frame(width, &mut fresh);
                let mut c = bvh.frame_cursor();
                for _ in 0..at {
                    c.move_next();
                }
                c.try_insert_frame(&f).map_err(|e| e.to_string())?;
                if width > 0 {
                    doc.frames.insert(at, f);
                }
            }
            2 => {
                if doc.frames.is_empty() {
                    return Ok(());
                }
                let at = ch.upto(doc.frames.len() - 1);
                let mut c = bvh.frame_cursor();
                for _ in 0..at {
                    c.move_next();
                }
                c.remove_frame().map_err(|e| e.to_string())?;
                doc.frames.remove(at);
            }
            _ => {
                doc.frame_time = Duration::from_nanos(12_345_678);
                bvh.set_frame_time(doc.frame_time);
            }
        }
    }
    let o = layout_options(ch);
    round_trip(ch, &doc, &bvh, &o)
}
fn c05_frame_time(ch: &mut Ch) -> Outcome {
    // Nanoseconds with patterns of digits, for every magnitude of seconds below 2^22.
    let secs: u64 = match ch.choose(24) {
        0 => 0,
        k => (1u64 << (k - 1)) - ch.upto(1) as u64,
    };
    let p = ch.upto(9);
    let lead = 1 + ch.upto(8) as u64;
    let tail = *ch.pick(&[0u64, 1, 2, 5, 9]);
    let nanos = (lead * 10u64.pow(p as u32) + tail) % 1_000_000_000;
    let secs = secs.min((1 << 22) - 1);
    let mut doc = tiny(1, 1);
    doc.frame_time = Duration::new(secs, nanos as u32);
    let mut bvh = load(&doc.text())?;
    bvh.set_frame_time(doc.frame_time);
    round_trip(ch, &doc, &bvh, &Opts::DEFAULT)
}

pub static C05: Property = Property {
    id: "C05",
    level: "model_checking",
    rule: "one evaluation writes one animation, loads the text, compares every observable part, and writes it again; told apart by the text",
    assumptions: &["frame times are below 2^22 s, beyond which seconds as a double no longer hold nanoseconds"],
    suites: &[
        Suite::new("shapes", "every tree, with 0, 1 or 3 channels and with or without an end site for every joint, in 8 layouts", c05_shapes).bound(4, 5),
        Suite::new("trees", "every tree with up to so many joints, in 8 layouts", c05_trees).bound(7, 9),
        Suite::new("sweep", DIMENSIONS, c05_sweep).bound(50, 250),
        Suite::new("values", "pairs of 20 special values in every kind of place, with 24 frame times, in 8 layouts with 3 sets of decimals which keep every digit", c05_values),
        Suite::new("names", "names: every byte, every string over 11 bytes, keywords of the format, in 8 layouts", c05_names).bound(3, 4),
        Suite::new("edited", "histories of up to so many edits before writing", c05_edited).bound(3, 4),
        Suite::new("frame-time", "frame times of every magnitude below 2^22 s", c05_frame_time),
    ],
};

// ---------------------------------------------------------------------------------------------
// C07: sinks

/// Every answer of the sink is a decision.
struct Sink<'a, 'b> {
    ch: &'a mut Ch<'b>,
    got: Vec<u8>,
    flushed_at: Option<usize>,
    failed: Option<Failure>,
    /// The last flush was interrupted: it may be repeated, or reported.
    interrupted: bool,
    calls: usize,
    hard: bool,
}

/// A failure which a sink or a reader reports: a kind with a cause, a kind alone, or a code of
/// the operating system.
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
enum Failure {
    Caused(ErrorKind),
    Bare(ErrorKind),
    Code(i32),
    /// A sink which accepts nothing, without an error of its own.
    Zero,
}

impl Failure {
    fn error(self) -> io::Error {
        match self {
            Failure::Caused(k) => io::Error::new(k, format!("the cause of {:?}", k)),
            Failure::Bare(k) => k.into(),
            Failure::Code(c) => io::Error::from_raw_os_error(c),
            Failure::Zero => ErrorKind::WriteZero.into(),
        }
    }
    fn check(self, e: &io::Error) -> Outcome {
        let w = self.error();
        ensure!(e.kind() == w.kind(), "fails with {:?}, the failure was {:?}", e, w);
        if self == Failure::Zero {
            return Ok(());
        }
        ensure!(e.raw_os_error() == w.raw_os_error(), "fails with {:?}, the failure was {:?}", e, w);
        ensure!(e.get_ref().is_some() == w.get_ref().is_some() && e.to_string() == w.to_string(), "fails with {:?}, the failure was {:?}", e, w);
        Ok(())
    }
}

const FAILURES: &[Failure] = &[
    Failure::Caused(ErrorKind::Other),
    Failure::Caused(ErrorKind::BrokenPipe),
    Failure::Caused(ErrorKind::WouldBlock),
    Failure::Bare(ErrorKind::WouldBlock),
    Failure::Bare(ErrorKind::TimedOut),
    Failure::Caused(ErrorKind::UnexpectedEof),
    Failure::Bare(ErrorKind::UnexpectedEof),
    Failure::Caused(ErrorKind::WriteZero),
    Failure::Bare(ErrorKind::PermissionDenied),
    Failure::Bare(ErrorKind::OutOfMemory),
    Failure::Caused(ErrorKind::InvalidData),
    Failure::Bare(ErrorKind::NotFound),
    Failure::Caused(ErrorKind::ConnectionReset),
    Failure::Caused(ErrorKind::InvalidInput),
    // EIO, ENOSPC, EPIPE
    Failure::Code(5),
    Failure::Code(28),
    Failure::Code(32),
];

impl Write for Sink<'_, '_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let soft = ["all", "one byte", "all but one byte", "half", "interrupted"];
        let n = if self.hard { soft.len() + 1 + FAILURES.len() } else { soft.len() };
        let k = self.ch.dev(n as u32) as usize;
        let take = match k {
            0 => buf.len(),
            1 => 1,
            2 => (buf.len() - 1).max(1),
            3 => (buf.len() / 2).max(1),
            4 => return Err(ErrorKind::Interrupted.into()),
            5 => {
                self.failed.get_or_insert(Failure::Zero);
                return Ok(0);
            }
            k => {
                self.failed.get_or_insert(FAILURES[k - 6]);
                return Err(FAILURES[k - 6].error());
            }
        };
        self.got.extend_from_slice(&buf[..take]);
        Ok(take)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.interrupted = false;
        let k = self.ch.dev(if self.hard { 2 + FAILURES.len() as u32 } else { 2 }) as usize;
        if k == 1 {
            self.interrupted = true;
            self.flushed_at = None;
            return Err(ErrorKind::Interrupted.into());
        }
        if k > 1 {
            self.failed.get_or_insert(FAILURES[k - 2]);
            return Err(FAILURES[k - 2].error());
        }
        self.flushed_at = Some(self.got.len());
        Ok(())
    }
}

fn sink_docs() -> [MDoc; 3] {
    [tiny(2, 1), chain(2, 1, 2), make_doc(&[None, Some(0), Some(0)], &[0, 1, 0], &[true, true, false], 1, 2)]
}

fn write_through<W: Write>(entry: u32, bvh: &Bvh, w: &mut W) -> io::Result<()> {
    match entry {
        0 => bvh.write_to(w),
        _ => WriteOptions::default().write(bvh, w),
    }
}

fn c07_answers(ch: &mut Ch) -> Outcome {
    let docs = sink_docs();
    let doc = ch.pick(&docs).clone();
    let entry = ch.choose(2);
    let bvh = load(&doc.text())?;
    let want = bvh.to_string();
    ch.note(|| show(&want));
    ch.traces(1);
    let mut sink = Sink { ch, got: vec![], flushed_at: None, failed: None, interrupted: false, calls: 0, hard: true };
    let r = write_through(entry, &bvh, &mut sink);
    let Sink { ch, got, flushed_at, failed, interrupted, calls, .. } = sink;
    ch.steps(calls);
    ch.state(hash_debug(&(&got, flushed_at, failed, calls)));
    ch.note(|| format!("{} calls, failure {:?}: {:?} with {} bytes", calls, failed, r, got.len()));
    if interrupted && failed.is_none() && matches!(&r, Err(e) if e.kind() == ErrorKind::Interrupted) {
        ch.outcome("interrupted flush reported");
        ensure!(got == want, "gives up: {}", first_difference(&got, &want));
        return Ok(());
    }
    verdict(ch, r, &got, &want, flushed_at, failed)
}

fn verdict(ch: &mut Ch, r: io::Result<()>, got: &[u8], want: &[u8], flushed_at: Option<usize>, failed: Option<Failure>) -> Outcome {
    match (r, failed) {
        (Ok(()), None) => {
            ch.outcome("complete");
            ensure!(got == want, "reports success: {}", first_difference(got, want));
            ensure!(flushed_at == Some(want.len()), "reports success without flushing what was written");
            Ok(())
        }
        (Ok(()), Some(k)) => Err(format!("reports success, although the writer failed with {:?} after {} bytes of {}", k, got.len(), want.len())),
        (Err(e), None) => Err(format!("fails with {}, although the writer did not fail", e)),
        (Err(e), Some(k)) => {
            ch.outcome("error");
            k.check(&e)?;
            ensure!(want.starts_with(got), "what was written before the failure is not a prefix of the text");
            Ok(())
        }
    }
}

fn c07_capacity(ch: &mut Ch) -> Outcome {
    // A disk which is full after so many bytes.
    struct Full {
        got: Vec<u8>,
        room: usize,
        kind: Option<Failure>,
        failed: Option<Failure>,
        flushed: Option<usize>,
    }
    impl Write for Full {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            let n = buf.len().min(self.room - self.got.len());
            if n == 0 && !buf.is_empty() {
                self.failed.get_or_insert(self.kind.unwrap_or(Failure::Zero));
                return match self.kind {
                    Some(k) => Err(k.error()),
                    None => Ok(0),
                };
            }
            self.got.extend_from_slice(&buf[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> io::Result<()> {
            self.flushed = Some(self.got.len());
            Ok(())
        }
    }
    let docs = [tiny(2, 2), small(2), chain(3, 1, 1)];
    let doc = ch.pick(&docs).clone();
    let bvh = load(&doc.text())?;
    let want = bvh.to_string();
    let room = ch.upto(want.len());
    let k = ch.choose(1 + FAILURES.len() as u32) as usize;
    let kind = if k == 0 { None } else { Some(FAILURES[k - 1]) };
    ch.note(|| format!("room for {} bytes of {}", room, want.len()));
    ch.traces(1);
    ch.state(hash_debug(&(want.len(), room, k)));
    let mut sink = Full { got: vec![], room, kind, failed: None, flushed: None };
    let r = bvh.write_to(&mut sink);
    verdict(ch, r, &sink.got, &want, sink.flushed, sink.failed)
}

fn c07_pace(ch: &mut Ch) -> Outcome {
    // A sink which takes at most so many bytes at a time, and is interrupted before every call.
    struct Slow {
        got: Vec<u8>,
        chunk: usize,
        interrupts: usize,
        pending: usize,
        flushed: Option<usize>,
    }
    impl Write for Slow {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            if self.pending > 0 {
                self.pending -= 1;
                return Err(ErrorKind::Interrupted.into());
            }
            self.pending = self.interrupts;
            let n = buf.len().min(self.chunk);
            self.got.extend_from_slice(&buf[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> io::Result<()> {
            self.flushed = Some(self.got.len());
            Ok(())
        }
    }
    let n = ch.bound();
    let which = ch.choose(6);
    let doc = match which {
        0 => small(3),
        1 => tiny(300, 3),
        2 => chain(40, 2, 3),
        3 => tiny(1, 400),
        4 => star(30, 3, 2),
        _ => {
            let mut d = small(1);
            d.joints[2].name = vec![b'n'; 500];
            d
        }
    };
    let chunk = 1 + ch.upto(n - 1);
    let interrupts = ch.upto(3);
    let entry = ch.choose(3);
    let o = Opts { spaces: Some(3), windows: true, offset: Some(3), time: Some(5), motion: Some(1) };
    let bvh = load(&doc.text())?;
    let want = if entry == 2 { o.fields().write_to_string(&bvh) } else { bvh.to_string() };
    let mut sink = Slow { got: vec![], chunk, interrupts, pending: interrupts, flushed: None };
    ch.note(|| format!("{} bytes at a time, {} interrupts before each call", chunk, interrupts));
    ch.traces(1);
    ch.state(hash_debug(&(which, chunk, interrupts, entry)));
    let r = if entry == 2 { o.fields().write(&bvh, &mut sink) } else { write_through(entry, &bvh, &mut sink) };
    verdict(ch, r, &sink.got, &want, sink.flushed, None)
}

fn c07_bulky(ch: &mut Ch) -> Outcome {
    // Texts beyond the size of any buffer, to sinks which take pieces of one size, and may fail.
    struct Slow {
        got: Vec<u8>,
        chunk: usize,
        room: usize,
        failed: Option<Failure>,
        flushed: Option<usize>,
    }
    impl Write for Slow {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            let n = buf.len().min(self.chunk).min(self.room - self.got.len());
            if n == 0 && !buf.is_empty() {
                let f = Failure::Code(28);
                self.failed.get_or_insert(f);
                return Err(f.error());
            }
            self.got.extend_from_slice(&buf[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> io::Result<()> {
            self.flushed = Some(self.got.len());
            Ok(())
        }
    }
    let docs = bulky();
    let which = ch.choose(docs.len() as u32) as usize;
    let bvh = load(&docs[which].text())?;
    let want = bvh.to_string();
    let chunk = *ch.pick(&[1usize, 100, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, usize::MAX]);
    let room = match ch.upto(ch.bound()) {
        0 => usize::MAX,
        k => want.len() * k / (ch.bound() + 1),
    };
    let entry = ch.choose(2);
    let mut sink = Slow { got: vec![], chunk, room, failed: None, flushed: None };
    ch.note(|| format!("document {}, {} bytes at a time, room for {} of {}", which, chunk, room, want.len()));
    ch.traces(1);
    ch.state(hash_debug(&(which, chunk, room, entry)));
    let r = write_through(entry, &bvh, &mut sink);
    verdict(ch, r, &sink.got, &want, sink.flushed, sink.failed)?;
    let text = WriteOptions::default().write_to_string(&bvh);
    ensure!(text == want, "write_to_string() differs: {}", first_difference(&text, &want));
    Ok(())
}

fn c07_buffered(ch: &mut Ch) -> Outcome {
    // Behind a buffer, a failure may only show when flushing.
    let docs = sink_docs();
    let doc = ch.pick(&docs).clone();
    let capacity = *ch.pick(&[1usize, 7, 16, 64, 4096]);
    let bvh = load(&doc.text())?;
    let want = bvh.to_string();
    let hard = ch.flag();
    ch.traces(1);
    let sink = Sink { ch, got: vec![], flushed_at: None, failed: None, interrupted: false, calls: 0, hard };
    let mut buffered = io::BufWriter::with_capacity(capacity, sink);
    let r = bvh.write_to(&mut buffered);
    let (sink, _) = buffered.into_parts();
    let Sink { ch, got, flushed_at, failed, interrupted, calls, .. } = sink;
    ch.steps(calls);
    ch.state(hash_debug(&(&got, flushed_at, failed, calls, capacity)));
    if interrupted && failed.is_none() && matches!(&r, Err(e) if e.kind() == ErrorKind::Interrupted) {
        ch.outcome("interrupted flush reported");
        ensure!(got == want, "gives up: {}", first_difference(&got, &want));
        return Ok(());
    }
    verdict(ch, r, &got, &want, flushed_at, failed)
}

pub static C07: Property = Property {
    id: "C07",
    level: "model_checking",
    rule: "one evaluation writes one animation to one sink, every answer of which is a decision; told apart by what the sink received and how it ended",
    assumptions: &["an interrupted flush may be reported or repeated, but is not a success"],
    suites: &[
        Suite::new("answers", "every set of up to so many unusual answers of the sink: short writes, interrupts, zero writes and 17 errors, by kind, by cause or by code, also when flushing", c07_answers).devs(2, 3),
        Suite::new("capacity", "a sink which is full after every number of bytes, with 18 ways to say so", c07_capacity),
        Suite::new("pace", "a sink which takes at most so many bytes at a time, with 0 to 3 interrupts before every call", c07_pace).bound(70, 700),
        Suite::new("bulky", "8 animations with lines up to more than a megabyte or thousands of lines, to sinks which take pieces of 17 sizes, and are full at several points or never", c07_bulky).bound(4, 40),
        Suite::new("buffered", "the same answers behind a buffer of 5 sizes", c07_buffered).devs(2, 3),
    ],
};

// ---------------------------------------------------------------------------------------------
// C08: readers

/// A reader which serves the text in the given pieces, and answers some calls in another way.
struct Source<'t> {
    text: &'t [u8],
    at: usize,
    /// Ends of the pieces, in ascending order.
    cuts: Vec<usize>,
    /// Interrupts before the call with this number.
    interrupts: Vec<usize>,
    /// Fails when this offset is reached; once or for ever.
    fail: Option<(usize, Failure, bool)>,
    failed: bool,
    calls: usize,
}

impl Source<'_> {
    fn end(&self) -> usize {
        let mut end = self.cuts.iter().copied().find(|c| *c > self.at).unwrap_or(self.text.len());
        if let Some((p, _, _)) = self.fail {
            if p > self.at && p < end {
                end = p;
            }
        }
        end
    }
}

impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let avail = self.fill_buf()?;
        let n = avail.len().min(buf.len());
        buf[..n].copy_from_slice(&avail[..n]);
        self.consume(n);
        Ok(n)
    }
}

impl BufRead for Source<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let call = self.calls;
        self.calls += 1;
        if self.interrupts.contains(&call) {
            return Err(ErrorKind::Interrupted.into());
        }
        if let Some((p, kind, forever)) = self.fail {
            if self.at == p && (forever || !self.failed) {
                self.failed = true;
                return Err(kind.error());
            }
        }
        Ok(&self.text[self.at..self.end()])
    }
    fn consume(&mut self, n: usize) {
        self.at += n;
    }
}

fn same_outcome(got: Result<Bvh, bvh_anim::errors::LoadError>, want: &Result<MDoc, Diag>) -> Outcome {
    match (got, want) {
        (Ok(b), Ok(d)) => matches(&b, d),
        (Err(e), Err(d)) => {
            let g = diag_of(e);
            ensure!(g == *d, "diagnosed as {:?}, expected {:?}", g, d);
            Ok(())
        }
        (Ok(_), Err(d)) => Err(format!("accepted, expected {:?}", d)),
        (Err(e), Ok(_)) => Err(format!("rejected: {}", e)),
    }
}

fn reader_docs() -> Vec<Vec<u8>> {
    let mut named = tiny(1, 1);
    named.joints[0].name = "J\u{f6}\u{1f600}".as_bytes().to_vec();
    let mut v = vec![
        tiny(2, 2).text(),
        render(&chain(2, 1, 1).lines(), "  ", " ", "\r\n"),
        named.text(),
    ];
    let mut no_newline = v[0].clone();
    no_newline.pop();
    v.push(no_newline);
    // Malformed ones.
    v.push(b"HIERARCHY\nROOT a\n{\nOFFSET 1 2 x\n}\nMOTION\n".to_vec());
    v.push(b"HIERARCHY\r\nROOT a\r\n{\r\nCHANNELS 1 Xposition\r\n}\r\nMOTION\r\nFrames: 2\r\nFrame Time: 0.5\r\n1\r\n\r\n1 z".to_vec());
    v.push(b"HIERARCHY\nROOT a\n{\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 3\nFrame Time: 0.5\n1\n2\n".to_vec());
    v.push(b"HIERARCHY\nROOT a\n{\n".to_vec());
    v
}

fn c08_cuts(ch: &mut Ch) -> Outcome {
    let docs = reader_docs();
    let text = ch.pick(&docs);
    let mut cuts = vec![];
    let mut at = 0;
    for _ in 0..ch.bound() {
        // 0: no further cut.
        let k = ch.upto(text.len() - 1 - at);
        if k == 0 {
            break;
        }
        at += k;
        cuts.push(at);
    }
    serve(ch, text, cuts, vec![], &spec_load(text))
}

fn serve(ch: &mut Ch, text: &[u8], cuts: Vec<usize>, interrupts: Vec<usize>, want: &Result<MDoc, Diag>) -> Outcome {
    ch.note(|| format!("pieces end at {:?}, interrupted calls {:?}:\n{}", &cuts[..cuts.len().min(50)], &interrupts[..interrupts.len().min(50)], show(text)));
    ch.traces(1);
    ch.state(hash_debug(&(&cuts, &interrupts, hash_bytes(text))));
    let mut s = Source { text, at: 0, cuts, interrupts, fail: None, failed: false, calls: 0 };
    let r = Bvh::from_reader(&mut s);
    ch.steps(s.calls);
    ch.outcome(if r.is_ok() { "accepted" } else { "rejected" });
    same_outcome(r, want)
}

fn c08_interrupts(ch: &mut Ch) -> Outcome {
    let docs = reader_docs();
    let text = ch.pick(&docs);
    let piece = *ch.pick(&[1usize, 2, 5, 64, 10_000]);
    let cuts: Vec<usize> = (1..).map(|i| i * piece).take_while(|c| *c < text.len()).collect();
    let calls = text.len() / piece + text.iter().filter(|b| **b == b'\n').count() + 4;
    let mut interrupts = vec![];
    match ch.choose(2) {
        0 => {
            let mut at = 0;
            for _ in 0..ch.bound() {
                let k = ch.upto(calls);
                if k == 0 {
                    break;
                }
                at += k;
                interrupts.push(at - 1);
            }
        }
        _ => {
            // Bursts.
            let every = 2 + ch.upto(3);
            interrupts = (0..20 * calls).filter(|c| c % every != 0).collect();
        }
    }
    serve(ch, text, cuts, interrupts, &spec_load(text))
}

fn c08_pace(ch: &mut Ch) -> Outcome {
    // Pieces of one size, for documents with long lines and of many lines.
    let n = ch.bound();
    let which = ch.choose(5);
    let doc = match which {
        0 => small(2),
        1 => tiny(300, 2),
        2 => chain(30, 1, 2),
        3 => {
            let mut d = small(1);
            d.joints[3].name = (0..700).map(|i| b'a' + (i % 26) as u8).collect();
            d
        }
        _ => tiny(3, 200),
    };
    let eol = *ch.pick(&["\n", "\r\n", "\n\n"]);
    let text = render(&doc.lines(), " ", " ", eol);
    let piece = 1 + ch.upto(n - 1);
    let cuts: Vec<usize> = (1..).map(|i| i * piece).take_while(|c| *c < text.len()).collect();
    serve(ch, &text, cuts, vec![], &Ok(doc))
}

fn c08_errors(ch: &mut Ch) -> Outcome {
    let docs = reader_docs();
    let which = ch.choose(docs.len() as u32) as usize;
    let text = &docs[which];
    let at = ch.upto(text.len());
    let kind = *ch.pick(FAILURES);
    let forever = ch.flag();
    let piece = *ch.pick(&[1usize, 3, 16, 10_000]);
    let cuts: Vec<usize> = (1..).map(|i| i * piece).take_while(|c| *c < text.len()).collect();
    ch.note(|| format!("fails with {:?} at {} of {}{}:\n{}", kind, at, text.len(), if forever { ", and then for ever" } else { "" }, show(&text[..at])));
    ch.traces(1);
    ch.state(hash_debug(&(which, at, kind, forever, piece)));
    let mut s = Source { text, at: 0, cuts, interrupts: vec![], fail: Some((at, kind, forever)), failed: false, calls: 0 };
    let r = Bvh::from_reader(&mut s);
    ch.steps(s.calls);
    let failed = s.failed;
    // Whatever the complete lines before the failure say, a verdict on them may come first.
    let lines_before = text[..at].iter().rposition(|b| *b == b'\n').map_or(0, |k| k + 1);
    let (before, open) = spec_run(&text[..lines_before]);
    match r {
        Ok(_) => {
            ensure!(!failed, "loaded successfully, although reading failed with {:?} at byte {}", kind, at);
            Err("loaded successfully without reading everything".into())
        }
        Err(e) => {
            let io = matches!(
                e.kind(),
                LoadErrorKind::Joints(LoadJointsError::Io(_)) | LoadErrorKind::Motion(LoadMotionError::Io(_))
            );
            // A loader which reads ahead finds the failure first.
            if open || (io && failed) {
                ch.outcome("i/o error");
                ensure!(io, "diagnosed as {:?}, although reading failed with {:?}", e.kind(), kind);
                ensure!(e.line().is_none(), "a failure to read has a line");
                ensure!(!e.to_string().is_empty(), "no message");
                // The failure is at the end of the chain of sources.
                let mut inner = std::error::Error::source(&e);
                let mut found = false;
                while let Some(s) = inner {
                    if let Some(s) = s.downcast_ref::<io::Error>() {
                        kind.check(s)?;
                        found = true;
                    }
                    inner = s.source();
                }
                ensure!(found, "the failure of the reader is not a source of the error");
                ensure!(e.to_string().contains(&kind.error().to_string()), "the message {:?} does not show {:?}", e.to_string(), kind);
                match e.into_kind() {
                    LoadErrorKind::Joints(LoadJointsError::Io(e)) | LoadErrorKind::Motion(LoadMotionError::Io(e)) => kind.check(&e)?,
                    other => return Err(format!("fails with {:?}, the reader failed with {:?}", other, kind)),
                }
            } else {
                ch.outcome("diagnosed before");
                let got = diag_of(e);
                let want = before.err();
                ensure!(Some(&got) == want.as_ref(), "diagnosed as {:?}, expected {:?}", got, want);
            }
            Ok(())
        }
    }
}

/// Large documents: in large pieces, with an interrupt, or with a failure at many offsets.
fn c08_large(ch: &mut Ch) -> Outcome {
    use std::sync::OnceLock;
    static DOCS: OnceLock<Vec<(MDoc, Vec<u8>)>> = OnceLock::new();
    let docs = DOCS.get_or_init(|| bulky().into_iter().map(|d| { let t = d.text(); (d, t) }).collect());
    let which = ch.choose(docs.len() as u32) as usize;
    let (doc, text) = &docs[which];
    let piece = *ch.pick(&[1000usize, 4095, 4096, 4097, 8191, 8192, 8193, 16_384, 65_535, 65_536, 65_537, usize::MAX]);
    let cuts: Vec<usize> = (1..).map_while(|i| piece.checked_mul(i)).take_while(|c| *c < text.len()).collect();
    if ch.flag() {
        let interrupts = match ch.upto(ch.bound()) {
            0 => vec![],
            1 => (0..2 * cuts.len() + 4).filter(|c| c % 2 == 0).collect(),
            k => vec![k - 2],
        };
        return serve(ch, text, cuts, interrupts, &Ok(doc.clone()));
    }
    let motion = text.windows(7).position(|w| w == b"\nMOTION").unwrap() + 1;
    let first = text.windows(12).position(|w| w == b"\nFrame Time:").unwrap() + 1;
    let mut at: Vec<usize> = (7..22).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).collect();
    at.extend([text.len() / 2, text.len() - 2, text.len() - 1, text.len(), motion - 1, motion, motion + 7, first, first + 20]);
    at.retain(|a| *a <= text.len());
    let at = *ch.pick(&at);
    let kind = *ch.pick(&[Failure::Caused(ErrorKind::Other), Failure::Bare(ErrorKind::UnexpectedEof), Failure::Caused(ErrorKind::WouldBlock)]);
    let forever = ch.flag();
    ch.note(|| format!("document {}, pieces of {}, fails with {:?} at {} of {}{}", which, piece, kind, at, text.len(), if forever { ", and then for ever" } else { "" }));
    ch.traces(1);
    ch.state(hash_debug(&(which, piece, at, kind, forever)));
    let mut s = Source { text, at: 0, cuts, interrupts: vec![], fail: Some((at, kind, forever)), failed: false, calls: 0 };
    let r = Bvh::from_reader(&mut s);
    ch.steps(s.calls);
    match r {
        Ok(_) => Err(format!("loaded successfully, although the reader fails with {:?} at byte {} of {}", kind, at, text.len())),
        Err(e) => match e.into_kind() {
            LoadErrorKind::Joints(LoadJointsError::Io(e)) | LoadErrorKind::Motion(LoadMotionError::Io(e)) => kind.check(&e),
            other => Err(format!("fails with {:?}, the reader failed with {:?}", other, kind)),
        },
    }
}

pub static C08: Property = Property {
    id: "C08",
    level: "model_checking",
    rule: "one evaluation loads one document from one reader, which decides where its pieces end, which calls are interrupted and where it fails; told apart by these decisions",
    assumptions: &[],
    suites: &[
        Suite::new("cuts", "8 documents, valid and not, served in every set of up to so many pieces", c08_cuts).bound(2, 3),
        Suite::new("interrupts", "8 documents in pieces of 5 sizes, interrupted at every set of up to so many calls, and in bursts", c08_interrupts).bound(2, 2),
        Suite::new("pace", "5 documents with long lines or many lines, in pieces of every size", c08_pace).bound(200, 1500),
        Suite::new("errors", "8 documents, reading fails at every offset with 17 errors, by kind, by cause or by code, once or for ever, in pieces of 4 sizes", c08_errors),
        Suite::new("large", "8 documents with lines up to more than a megabyte or thousands of lines, in pieces of 12 sizes, with interrupts, or with 3 failures around every power of two and at the ends of the sections", c08_large).bound(4, 40),
    ],
};
