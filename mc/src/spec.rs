//! The specification of the file format: which documents are accepted, what they mean, and how
//! the others are diagnosed. Written as a stack automaton over the lines, from the documentation
//! of the format; it shares no code and no structure with the loader.
//!
//! Only meant for documents whose whitespace is ASCII.

use crate::model::{MDoc, MJoint, TYPES, V3};
use bvh_anim::errors::{LoadError, LoadErrorKind, LoadJointsError as J, LoadMotionError as M};
use bvh_anim::{Axis, ChannelType};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Diag {
    MissingRoot,
    MissingJointName(usize),
    UnexpectedHierarchy(usize),
    UnexpectedRoot(usize),
    UnexpectedJoint(usize),
    UnexpectedEndSite(usize),
    UnexpectedBrace(usize),
    UnexpectedChannels(usize),
    /// Whether there was a token which is not a number.
    NumChannels(bool, usize),
    Channel(Vec<u8>, usize),
    UnexpectedOffset(usize),
    Offset(Axis, usize),
    MissingOffset(Axis, usize),
    MissingMotion(usize),
    NumFrames(bool, usize),
    FrameTime(bool, usize),
    MotionValue { column: usize, line: usize },
    Count { actual: usize, expected: usize, frames: usize, channels: usize },
    Io(std::io::ErrorKind),
}

impl Diag {
    pub fn line(&self) -> Option<usize> {
        use Diag::*;
        match *self {
            MissingRoot | Count { .. } | Io(_) => None,
            MissingJointName(l) | UnexpectedHierarchy(l) | UnexpectedRoot(l) | UnexpectedJoint(l)
            | UnexpectedEndSite(l) | UnexpectedBrace(l) | UnexpectedChannels(l) | NumChannels(_, l)
            | Channel(_, l) | UnexpectedOffset(l) | Offset(_, l) | MissingOffset(_, l)
            | MissingMotion(l) | NumFrames(_, l) | FrameTime(_, l) | MotionValue { line: l, .. } => Some(l),
        }
    }

    pub fn name(&self) -> String {
        let s = format!("{:?}", self);
        s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
    }
}

/// The diagnosis an error of the library stands for.
pub fn diag_of(e: LoadError) -> Diag {
    match e.into_kind() {
        LoadErrorKind::Joints(e) => match e {
            J::Io(e) => Diag::Io(e.kind()),
            J::MissingRoot => Diag::MissingRoot,
            J::MissingJointName { line } => Diag::MissingJointName(line),
            J::UnexpectedHierarchySection { line } => Diag::UnexpectedHierarchy(line),
            J::UnexpectedRootSection { line } => Diag::UnexpectedRoot(line),
            J::UnexpectedJointSection { line } => Diag::UnexpectedJoint(line),
            J::UnexpectedEndSiteSection { line } => Diag::UnexpectedEndSite(line),
            J::UnexpectedBrace { line } => Diag::UnexpectedBrace(line),
            J::UnexpectedChannelsSection { line } => Diag::UnexpectedChannels(line),
            J::ParseNumChannelsError { error, line } => Diag::NumChannels(error.is_some(), line),
            J::ParseChannelError { error, line } => Diag::Channel(error.into_inner(), line),
            J::UnexpectedOffsetSection { line } => Diag::UnexpectedOffset(line),
            J::ParseOffsetError { axis, line, .. } => Diag::Offset(axis, line),
            J::MissingOffsetAxis { axis, line } => Diag::MissingOffset(axis, line),
        },
        LoadErrorKind::Motion(e) => match e {
            M::Io(e) => Diag::Io(e.kind()),
            M::MissingMotionSection { line } => Diag::MissingMotion(line),
            M::MissingNumFrames { parse_error, line } => Diag::NumFrames(parse_error.is_some(), line),
            M::MissingFrameTime { parse_error, line } => Diag::FrameTime(parse_error.is_some(), line),
            M::ParseMotionSection { channel_index, line, .. } => Diag::MotionValue { column: channel_index, line },
            M::MotionCountMismatch {
                actual_total_motion_values,
                expected_total_motion_values,
                expected_num_frames,
                expected_num_clips,
            } => Diag::Count {
                actual: actual_total_motion_values,
                expected: expected_total_motion_values,
                frames: expected_num_frames,
                channels: expected_num_clips,
            },
        },
    }
}

/// A body between braces: of a joint, or of the end site of a joint.
enum Body {
    Joint { index: usize, settings_over: bool },
    EndSite { of: usize },
}

/// What the next structural line must be.
enum Place {
    BeforeHierarchy,
    BeforeRoot,
    /// A section was announced; its body must be opened.
    BeforeOpen(Body),
    Inside,
}

fn tokens(line: &[u8]) -> Vec<&[u8]> {
    line.split(|b| b.is_ascii_whitespace() || *b == b':').filter(|t| !t.is_empty()).collect()
}

fn plain_tokens(line: &[u8]) -> Vec<&[u8]> {
    line.split(|b| b.is_ascii_whitespace()).filter(|t| !t.is_empty()).collect()
}

fn number<T: std::str::FromStr>(t: &[u8]) -> Option<T> {
    std::str::from_utf8(t).ok().and_then(|s| s.parse().ok())
}

fn name_in(line: &[u8]) -> Option<Vec<u8>> {
    // After the keyword, and the spaces or colons which follow it.
    let sep = |b: &u8| b.is_ascii_whitespace() || *b == b':';
    let rest: &[u8] = {
        let start = line.iter().position(|b| !sep(b))?;
        let after_kw = line[start..].iter().position(sep).map(|k| start + k)?;
        let name = line[after_kw..].iter().position(|b| !sep(b)).map(|k| after_kw + k)?;
        &line[name..]
    };
    let end = rest.iter().position(|b| b.is_ascii_whitespace()).unwrap_or(rest.len());
    Some(rest[..end].to_vec())
}

pub fn channel_type(t: &[u8]) -> Option<ChannelType> {
    TYPES.iter().copied().find(|c| crate::model::type_name(*c).as_bytes() == t)
}

pub fn spec_load(text: &[u8]) -> Result<MDoc, Diag> {
    spec_run(text).0
}

/// Also tells whether further lines could change the verdict: the document is accepted, or is
/// only rejected because it ends where it does.
pub fn spec_run(text: &[u8]) -> (Result<MDoc, Diag>, bool) {
    let mut at_end = false;
    let r = run(text, &mut at_end);
    let open = r.is_ok() || at_end;
    (r, open)
}

fn run(text: &[u8], at_end: &mut bool) -> Result<MDoc, Diag> {
    let mut lines: Vec<&[u8]> = text.split(|b| *b == b'\n').collect();
    if lines.last().map_or(false, |l| l.is_empty()) {
        lines.pop();
    }

    let mut joints: Vec<MJoint> = vec![];
    let mut stack: Vec<Body> = vec![];
    let mut place = Place::BeforeHierarchy;
    let mut at = 0;
    let mut finished = false;

    while at < lines.len() && !finished {
        let (n, line) = (at, lines[at]);
        at += 1;
        let toks = tokens(line);
        let kw: &[u8] = match toks.first() {
            None => continue,
            Some(t) => t,
        };
        match kw {
            b"HIERARCHY" => match place {
                Place::BeforeHierarchy => place = Place::BeforeRoot,
                _ => return Err(Diag::UnexpectedHierarchy(n)),
            },
            b"ROOT" | b"JOINT" => {
                let parent = match (&place, kw == b"ROOT", stack.last_mut()) {
                    (Place::BeforeRoot, true, None) => None,
                    (_, true, _) => return Err(Diag::UnexpectedRoot(n)),
                    (Place::Inside, false, Some(Body::Joint { index, settings_over })) => {
                        *settings_over = true;
                        Some(*index)
                    }
                    _ => return Err(Diag::UnexpectedJoint(n)),
                };
                let name = name_in(line).ok_or(Diag::MissingJointName(n))?;
                joints.push(MJoint { name, parent, offset: [0.0; 3], channels: vec![], end_site: None });
                place = Place::BeforeOpen(Body::Joint { index: joints.len() - 1, settings_over: false });
            }
            b"End" => match (&place, stack.last_mut()) {
                (Place::Inside, Some(Body::Joint { index, settings_over }))
                    if !*settings_over && toks.get(1) == Some(&&b"Site"[..]) =>
                {
                    *settings_over = true;
                    let of = *index;
                    place = Place::BeforeOpen(Body::EndSite { of });
                }
                _ => return Err(Diag::UnexpectedEndSite(n)),
            },
            b"{" => match std::mem::replace(&mut place, Place::Inside) {
                Place::BeforeOpen(body) => stack.push(body),
                _ => return Err(Diag::UnexpectedBrace(n)),
            },
            b"}" => match place {
                Place::Inside => {
                    stack.pop();
                    finished = stack.is_empty();
                }
                _ => return Err(Diag::UnexpectedBrace(n)),
            },
            b"OFFSET" => {
                let target = match (&place, stack.last()) {
                    (Place::Inside, Some(Body::Joint { index, settings_over: false })) => (*index, false),
                    (Place::Inside, Some(Body::EndSite { of })) => (*of, true),
                    _ => return Err(Diag::UnexpectedOffset(n)),
                };
                let mut v: V3 = [0.0; 3];
                for (i, axis) in [Axis::X, Axis::Y, Axis::Z].into_iter().enumerate() {
                    let t = toks.get(1 + i).ok_or(Diag::MissingOffset(axis, n))?;
                    v[i] = number(t).ok_or(Diag::Offset(axis, n))?;
                }
                if target.1 {
                    joints[target.0].end_site = Some(v);
                } else {
                    joints[target.0].offset = v;
                }
            }
            b"CHANNELS" => {
                let index = match (&place, stack.last()) {
                    (Place::Inside, Some(Body::Joint { index, settings_over: false }))
                        if joints[*index].channels.is_empty() =>
                    {
                        *index
                    }
                    _ => return Err(Diag::UnexpectedChannels(n)),
                };
                let count = toks.get(1).ok_or(Diag::NumChannels(false, n))?;
                let _: usize = number(count).ok_or(Diag::NumChannels(true, n))?;
                for t in &toks[2..] {
                    let c = channel_type(t).ok_or_else(|| Diag::Channel(t.to_vec(), n))?;
                    joints[index].channels.push(c);
                }
            }
            _ => {}
        }
    }
    if !finished {
        *at_end = true;
        return Err(Diag::MissingRoot);
    }

    let width: usize = joints.iter().map(|j| j.channels.len()).sum();
    let mut next_line = || -> (usize, Option<&[u8]>) {
        while at < lines.len() {
            at += 1;
            if !plain_tokens(lines[at - 1]).is_empty() {
                return (at - 1, Some(lines[at - 1]));
            }
        }
        *at_end = true;
        (lines.len() - 1, None)
    };

    match next_line() {
        (_, Some(l)) if plain_tokens(l) == [&b"MOTION"[..]] => {}
        (n, _) => return Err(Diag::MissingMotion(n)),
    }

    let frames: usize = match next_line() {
        (n, Some(l)) => {
            let t = tokens(l);
            if t[..].first() != Some(&&b"Frames"[..]) || t.len() < 2 || std::str::from_utf8(t[1]).is_err() {
                return Err(Diag::NumFrames(false, n));
            }
            number(t[1]).ok_or(Diag::NumFrames(true, n))?
        }
        (n, None) => return Err(Diag::NumFrames(false, n)),
    };

    let frame_time: Duration = match next_line() {
        (n, Some(l)) => {
            let t = plain_tokens(l);
            if t[0] != b"Frame" || t.get(1) != Some(&&b"Time:"[..]) {
                return Err(Diag::FrameTime(false, n));
            }
            let k = if t.get(2) == Some(&&b":"[..]) { 3 } else { 2 };
            let v = t.get(k).ok_or(Diag::FrameTime(false, n))?;
            let secs: f64 = number(v).ok_or(Diag::FrameTime(true, n))?;
            Duration::try_from_secs_f64(secs).map_err(|_| Diag::FrameTime(false, n))?
        }
        (n, None) => return Err(Diag::FrameTime(false, n)),
    };

    let mut values: Vec<f32> = vec![];
    for (i, l) in lines[at..].iter().enumerate() {
        for (column, t) in plain_tokens(l).into_iter().enumerate() {
            values.push(number(t).ok_or(Diag::MotionValue { column, line: at + i })?);
        }
    }
    let expected = frames.saturating_mul(width);
    if values.len() != expected {
        *at_end = true;
        return Err(Diag::Count { actual: values.len(), expected, frames, channels: width });
    }
    let frames = if width == 0 { vec![] } else { values.chunks(width).map(|c| c.to_vec()).collect() };
    Ok(MDoc { joints, frames, frame_time })
}
