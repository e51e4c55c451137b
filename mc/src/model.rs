//! The abstract documents the checks work with, how they are rendered as text, and how the
//! observable contents of a `Bvh` are read back through its public interface.

use crate::engine::{Ch, Outcome};
use bvh_anim::{Bvh, ChannelType, Joint};
use std::time::Duration;

pub const TYPES: [ChannelType; 6] = [
    ChannelType::PositionX,
    ChannelType::PositionY,
    ChannelType::PositionZ,
    ChannelType::RotationX,
    ChannelType::RotationY,
    ChannelType::RotationZ,
];

/// Written down here independently of the library.
pub fn type_name(t: ChannelType) -> &'static str {
    match t {
        ChannelType::PositionX => "Xposition",
        ChannelType::PositionY => "Yposition",
        ChannelType::PositionZ => "Zposition",
        ChannelType::RotationX => "Xrotation",
        ChannelType::RotationY => "Yrotation",
        ChannelType::RotationZ => "Zrotation",
    }
}

pub type V3 = [f32; 3];

#[derive(Clone, Debug, PartialEq)]
pub struct MJoint {
    pub name: Vec<u8>,
    pub parent: Option<usize>,
    pub offset: V3,
    pub channels: Vec<ChannelType>,
    pub end_site: Option<V3>,
}

/// A document; the joints are in the order of the text, which is a preorder of the tree.
#[derive(Clone, Debug, PartialEq)]
pub struct MDoc {
    pub joints: Vec<MJoint>,
    pub frames: Vec<Vec<f32>>,
    pub frame_time: Duration,
}

impl MDoc {
    pub fn width(&self) -> usize {
        self.joints.iter().map(|j| j.channels.len()).sum()
    }

    pub fn depths(&self) -> Vec<usize> {
        let mut d: Vec<usize> = Vec::with_capacity(self.joints.len());
        for j in &self.joints {
            let depth = j.parent.map_or(0, |p| d[p] + 1);
            d.push(depth);
        }
        d
    }

    pub fn children(&self, of: usize) -> Vec<usize> {
        (0..self.joints.len()).filter(|&i| self.joints[i].parent == Some(of)).collect()
    }
}

/// Equal as values of a file: the same bits, but one NaN is as good as another.
pub fn same_f32(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

fn same_v3(a: &V3, b: &V3) -> bool {
    (0..3).all(|i| same_f32(a[i], b[i]))
}

fn show_name(n: &[u8]) -> String {
    String::from_utf8_lossy(n).into_owned()
}

/// Compare what was observed with what was expected.
pub fn same(got: &MDoc, want: &MDoc) -> Outcome {
    if got.joints.len() != want.joints.len() {
        return Err(format!("{} joints, expected {}", got.joints.len(), want.joints.len()));
    }
    for (i, (g, w)) in got.joints.iter().zip(&want.joints).enumerate() {
        if g.name != w.name {
            return Err(format!("joint {}: name {:?}, expected {:?}", i, show_name(&g.name), show_name(&w.name)));
        }
        if g.parent != w.parent {
            return Err(format!("joint {}: parent {:?}, expected {:?}", i, g.parent, w.parent));
        }
        if !same_v3(&g.offset, &w.offset) {
            return Err(format!("joint {}: offset {:?}, expected {:?}", i, g.offset, w.offset));
        }
        if g.channels != w.channels {
            return Err(format!("joint {}: channels {:?}, expected {:?}", i, g.channels, w.channels));
        }
        match (&g.end_site, &w.end_site) {
            (None, None) => {}
            (Some(a), Some(b)) if same_v3(a, b) => {}
            _ => return Err(format!("joint {}: end site {:?}, expected {:?}", i, g.end_site, w.end_site)),
        }
    }
    same_motion(got, want)
}

pub fn same_motion(got: &MDoc, want: &MDoc) -> Outcome {
    if got.frame_time != want.frame_time {
        return Err(format!("frame time {:?}, expected {:?}", got.frame_time, want.frame_time));
    }
    same_frames(&got.frames, &want.frames)
}

pub fn same_frames(got: &[Vec<f32>], want: &[Vec<f32>]) -> Outcome {
    if got.len() != want.len() {
        return Err(format!("{} frames, expected {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g.len() != w.len() || !g.iter().zip(w).all(|(a, b)| same_f32(*a, *b)) {
            return Err(format!("frame {}: {:?}, expected {:?}", i, g, w));
        }
    }
    Ok(())
}

macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}
pub(crate) use ensure;

/// Read the contents of the animation through the public interface, and check that all the
/// ways to look at them agree with each other.
pub fn observe(bvh: &Bvh) -> Result<MDoc, String> {
    let joints: Vec<Joint<'_>> = bvh.joints().collect();
    let n = joints.len();
    match bvh.root_joint() {
        None => ensure!(n == 0, "no root joint, but {} joints", n),
        Some(root) => {
            ensure!(n > 0, "a root joint, but no joints");
            ensure!(root.is_root() && root.index() == 0, "the root joint is joint {}", root.index());
            ensure!(root.parent_index().is_none() && root.parent().is_none(), "the root joint has a parent");
            ensure!(root.name() == joints[0].name(), "the root joint is not the first joint");
        }
    }
    let mut out = Vec::with_capacity(n);
    let mut next_channel = 0;
    for (i, j) in joints.iter().enumerate() {
        ensure!(j.index() == i, "joint {} has index {}", i, j.index());
        ensure!(j.is_root() == (i == 0), "joint {}: is_root() is {}", i, j.is_root());
        ensure!(j.is_child() == (i != 0), "joint {}: is_child() is {}", i, j.is_child());
        let parent = j.parent_index();
        match (i, parent) {
            (0, None) => {}
            (0, Some(p)) => return Err(format!("the root has the parent {}", p)),
            (_, None) => return Err(format!("joint {} has no parent", i)),
            (_, Some(p)) => {
                ensure!(p < i, "joint {} comes before its parent {}", i, p);
                // In the order of the text, a joint's parent is the previous joint or one of
                // the ancestors of that.
                let mut a = Some(i - 1);
                while let Some(k) = a {
                    if k == p {
                        break;
                    }
                    a = joints[k].parent_index().filter(|&q| q < k);
                }
                ensure!(a == Some(p), "joint {}: the parent {} is already closed", i, p);
            }
        }
        match j.parent() {
            None => ensure!(parent.is_none(), "joint {}: parent() is None", i),
            Some(p) => {
                ensure!(Some(p.index()) == parent, "joint {}: parent() is {}, parent_index() {:?}", i, p.index(), parent);
                ensure!(p.name() == joints[p.index()].name(), "joint {}: parent() is another joint", i);
            }
        }
        ensure!(j.has_end_site() == j.end_site().is_some(), "joint {}: has_end_site() is wrong", i);
        let mut channels = Vec::with_capacity(j.channels().len());
        for c in j.channels() {
            ensure!(
                c.motion_index() == next_channel,
                "joint {}: a channel has motion index {}, expected {}", i, c.motion_index(), next_channel
            );
            next_channel += 1;
            channels.push(c.channel_type());
        }
        out.push(MJoint {
            name: j.name().to_vec(),
            parent,
            offset: *j.offset(),
            channels,
            end_site: j.end_site().copied(),
        });
    }
    if n <= 600 {
        let mut claimed = 0;
        for (i, j) in joints.iter().enumerate() {
            for c in j.children() {
                ensure!(out[c.index()].parent == Some(i), "joint {} lists joint {} as a child", i, c.index());
                claimed += 1;
            }
        }
        ensure!(claimed + 1 == n.max(1), "{} joints are children, of {} joints", claimed, n);
    }
    ensure!(
        bvh.num_channels() == next_channel,
        "num_channels() is {}, the joints have {}", bvh.num_channels(), next_channel
    );
    let frames = observe_frames(bvh)?;
    Ok(MDoc { joints: out, frames, frame_time: *bvh.frame_time() })
}

pub fn observe_frames(bvh: &Bvh) -> Result<Vec<Vec<f32>>, String> {
    let len = bvh.frames().len();
    let frames: Vec<Vec<f32>> = bvh.frames().map(|f| f.as_slice().to_vec()).collect();
    ensure!(frames.len() == len, "{} frames, but len() is {}", frames.len(), len);
    #[allow(deprecated)]
    let num_frames = bvh.num_frames();
    ensure!(num_frames == len, "num_frames() is {}, but frames().len() is {}", num_frames, len);
    for (i, f) in frames.iter().enumerate() {
        ensure!(f.len() == bvh.num_channels(), "frame {} has {} values for {} channels", i, f.len(), bvh.num_channels());
    }
    Ok(frames)
}

/// Observe, and compare.
pub fn matches(bvh: &Bvh, want: &MDoc) -> Outcome {
    let got = observe(bvh)?;
    same(&got, want)
}

pub fn load(text: &[u8]) -> Result<Bvh, String> {
    Bvh::from_bytes(text).map_err(|e| format!("rejected: {} ({:?})", e, e.kind()))
}

// ---------------------------------------------------------------------------------------------
// Rendering

#[derive(Clone, Debug)]
pub struct Line {
    pub depth: usize,
    pub tokens: Vec<Vec<u8>>,
}

fn num(v: f32) -> Vec<u8> {
    format!("{}", v).into_bytes()
}

fn line(depth: usize, tokens: Vec<Vec<u8>>) -> Line {
    Line { depth, tokens }
}

fn words(s: &str) -> Vec<Vec<u8>> {
    s.split(' ').filter(|w| !w.is_empty()).map(|w| w.as_bytes().to_vec()).collect()
}

fn offset_line(depth: usize, v: &V3) -> Line {
    line(depth, vec![b"OFFSET".to_vec(), num(v[0]), num(v[1]), num(v[2])])
}

impl MDoc {
    /// The lines of the hierarchy, in the conventional form.
    pub fn hierarchy_lines(&self) -> Vec<Line> {
        let depths = self.depths();
        let mut out = vec![line(0, words("HIERARCHY"))];
        for (i, j) in self.joints.iter().enumerate() {
            let d = depths[i];
            let kw = if i == 0 { "ROOT" } else { "JOINT" };
            out.push(line(d, vec![kw.as_bytes().to_vec(), j.name.clone()]));
            out.push(line(d, words("{")));
            out.push(offset_line(d + 1, &j.offset));
            let mut toks = vec![b"CHANNELS".to_vec(), j.channels.len().to_string().into_bytes()];
            toks.extend(j.channels.iter().map(|c| type_name(*c).as_bytes().to_vec()));
            out.push(line(d + 1, toks));
            if let Some(e) = &j.end_site {
                out.push(line(d + 1, words("End Site")));
                out.push(line(d + 1, words("{")));
                out.push(offset_line(d + 2, e));
                out.push(line(d + 1, words("}")));
            }
            let next = if i + 1 < self.joints.len() { depths[i + 1] } else { 0 };
            for k in (next..=d).rev() {
                out.push(line(k, words("}")));
            }
        }
        out
    }

    /// All lines, in the conventional form. The empty document has no root.
    pub fn lines(&self) -> Vec<Line> {
        let mut out = self.hierarchy_lines();
        out.push(line(0, words("MOTION")));
        out.push(line(0, vec![b"Frames:".to_vec(), self.frames.len().to_string().into_bytes()]));
        out.push(line(
            0,
            vec![
                b"Frame".to_vec(),
                b"Time:".to_vec(),
                format!("{}", self.frame_time.as_secs_f64()).into_bytes(),
            ],
        ));
        for f in &self.frames {
            out.push(line(0, f.iter().map(|v| num(*v)).collect()));
        }
        out
    }

    pub fn text(&self) -> Vec<u8> {
        render(&self.lines(), "\t", " ", "\n")
    }
}

pub fn render(lines: &[Line], indent: &str, sep: &str, eol: &str) -> Vec<u8> {
    let mut out = vec![];
    for l in lines {
        if !indent.is_empty() {
            out.extend_from_slice(indent.repeat(l.depth).as_bytes());
        }
        for (i, t) in l.tokens.iter().enumerate() {
            if i > 0 {
                out.extend_from_slice(sep.as_bytes());
            }
            out.extend_from_slice(t);
        }
        out.extend_from_slice(eol.as_bytes());
    }
    out
}

pub fn show(text: &[u8]) -> String {
    let mut s = String::new();
    for &b in text {
        match b {
            b'\n' => s.push('\n'),
            0x20..=0x7e => s.push(b as char),
            b'\t' => s.push_str("\\t"),
            b'\r' => s.push_str("\\r"),
            b => s.push_str(&format!("\\x{:02x}", b)),
        }
        if s.len() > 6000 {
            s.push_str("...");
            break;
        }
    }
    s
}

// ---------------------------------------------------------------------------------------------
// Enumeration

/// Choose one of the trees with `n` nodes: the parents, in preorder.
pub fn choose_tree(ch: &mut Ch, n: usize) -> Vec<Option<usize>> {
    let mut parents: Vec<Option<usize>> = vec![];
    let mut path: Vec<usize> = vec![];
    for i in 0..n {
        if i == 0 {
            parents.push(None);
        } else {
            let up = ch.choose(path.len() as u32) as usize;
            path.truncate(path.len() - up);
            parents.push(path.last().copied());
        }
        path.push(i);
    }
    parents
}

/// Distinct values, of which some are written in unusual ways.
pub fn value(k: usize) -> f32 {
    const ODD: [f32; 16] = [
        0.0, -0.0, 1.0, -1.5, 0.1, 1e-3, 123456.79, -0.000_012_345_678, 3.4028235e38, 1.1754944e-38,
        1e-45, 16777216.0, 1e10, -7.25, 33.333332, -180.0,
    ];
    if k < ODD.len() {
        ODD[k]
    } else {
        let v = (k as f32) + [0.0, 0.5, 0.0625, 0.1][k % 4];
        if k % 3 == 0 {
            -v
        } else {
            v
        }
    }
}

/// Values used up in order, so that no two places of a document hold the same one.
pub struct Values(pub usize);
impl Values {
    pub fn next(&mut self) -> f32 {
        self.0 += 1;
        value(self.0 - 1)
    }
    pub fn v3(&mut self) -> V3 {
        [self.next(), self.next(), self.next()]
    }
}

pub fn joint_name(i: usize) -> Vec<u8> {
    const NAMES: [&str; 8] = ["Hips", "Chest", "Neck1", "Left_Arm", "mixamorig:Hand", "J-5", "x", "Right.Foot"];
    if i < NAMES.len() {
        NAMES[i].into()
    } else {
        format!("Joint{}", i).into_bytes()
    }
}

/// `k` channels, whose types depend on `salt`, so that different joints differ.
pub fn channel_list(k: usize, salt: usize) -> Vec<ChannelType> {
    (0..k).map(|i| TYPES[(i * 5 + salt + i / 6) % 6]).collect()
}

pub fn frame(width: usize, vals: &mut Values) -> Vec<f32> {
    (0..width).map(|_| vals.next()).collect()
}

/// Assemble a document with distinct values everywhere.
pub fn make_doc(parents: &[Option<usize>], channels: &[usize], ends: &[bool], frames: usize, salt: usize) -> MDoc {
    let mut vals = Values(salt);
    let joints: Vec<MJoint> = (0..parents.len())
        .map(|i| MJoint {
            name: joint_name(i),
            parent: parents[i],
            offset: vals.v3(),
            channels: channel_list(channels[i], i + salt),
            end_site: if ends[i] { Some(vals.v3()) } else { None },
        })
        .collect();
    let width: usize = channels.iter().sum();
    let frames = if width == 0 { 0 } else { frames };
    MDoc {
        joints,
        frames: (0..frames).map(|_| frame(width, &mut vals)).collect(),
        frame_time: Duration::from_nanos(33_333_333 + salt as u64),
    }
}

/// A skeleton which is a chain, with `channels` channels for every joint.
pub fn chain(n: usize, channels: usize, frames: usize) -> MDoc {
    let parents: Vec<Option<usize>> = (0..n).map(|i| i.checked_sub(1)).collect();
    let ends: Vec<bool> = (0..n).map(|i| i + 1 == n).collect();
    make_doc(&parents, &vec![channels; n], &ends, frames, 0)
}

/// A root with `n - 1` children.
pub fn star(n: usize, channels: usize, frames: usize) -> MDoc {
    let parents: Vec<Option<usize>> = (0..n).map(|i| if i == 0 { None } else { Some(0) }).collect();
    let ends: Vec<bool> = (0..n).map(|i| i > 0 || n == 1).collect();
    make_doc(&parents, &vec![channels; n], &ends, frames, 0)
}

/// The skeleton used by many suites: a root with an arm of two joints, and a leg.
pub fn small(frames: usize) -> MDoc {
    make_doc(&[None, Some(0), Some(1), Some(0)], &[6, 3, 1, 2], &[false, false, true, true], frames, 0)
}

/// One joint.
pub fn tiny(channels: usize, frames: usize) -> MDoc {
    make_doc(&[None], &[channels], &[true], frames, 0)
}
