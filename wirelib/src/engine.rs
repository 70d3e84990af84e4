//! Scenarios and oracles, one per property. Each is a pure function of the tape and the code.

use crate::node::*;
use crate::sim::*;
use asn1_codecs::aper::AperCodecData;
use simcore::gen::*;
use simcore::model::*;
use simcore::refper::*;
use simcore::tape::Tape;

pub type Res = Result<(), Violation>;

// ------------------------------------------------------------------ picking types and values

pub struct Index {
    /// usable registered types
    pub regs: Vec<usize>,
    /// those that reach an open type
    pub open: Vec<usize>,
    /// those that reach an extensible type
    pub ext: Vec<usize>,
    /// those that carry a constraint
    pub prims: bool,
}

pub fn index(types: &Types, prims: bool) -> Index {
    fn reach(env: &Env, ty: &Ty, f: &dyn Fn(&Ty) -> bool) -> bool {
        let t = env.res(ty);
        f(t) || match t {
            Ty::Seq { fields, .. } => fields.iter().any(|x| reach(env, &x.ty, f)),
            Ty::SeqOf { elem, .. } => reach(env, elem, f),
            Ty::Choice { alts, .. } => alts.iter().any(|x| reach(env, &x.ty, f)),
            Ty::Open(alts) => alts.iter().any(|x| reach(env, &x.ty, f)),
            _ => false,
        }
    }
    let mut ix = Index { regs: vec![], open: vec![], ext: vec![], prims };
    for (i, (_, ty)) in types.env.types.iter().enumerate() {
        if types.entries[i].is_none() || matches!(types.env.res(ty), Ty::Open(_)) || !types.env.has_value(ty) {
            continue;
        }
        ix.regs.push(i);
        if reach(&types.env, ty, &|t| matches!(t, Ty::Open(_))) {
            ix.open.push(i);
        }
        if reach(&types.env, ty, &|t| {
            matches!(
                t,
                Ty::Seq { ext: Some(_), .. }
                    | Ty::Choice { ext: Some(_), .. }
                    | Ty::Enum { ext: Some(_), .. }
                    | Ty::Int { ext: true, .. }
                    | Ty::Bits(Some(Size { ext: true, .. }))
                    | Ty::Octets(Some(Size { ext: true, .. }))
                    | Ty::Str(_, Some(Size { ext: true, .. }))
                    | Ty::SeqOf { size: Some(Size { ext: true, .. }), .. }
            )
        }) {
            ix.ext.push(i);
        }
    }
    ix
}

fn prim(t: &mut Tape) -> Codec {
    match t.weighted(&[20, 2, 2, 2, 1]) {
        0 => Codec::Prim(
            Prim::Plain,
            match gen_leaf(t) {
                Ty::Null => Ty::Bool,
                x => x,
            },
        ),
        1 => {
            let mut e = gen_enum(t, 300);
            if let Ty::Enum { ext: Some(x), .. } = &mut e {
                // the runtime reports any addition index
                *x = (0..200).map(|i| format!("x{}", i)).collect();
            }
            Codec::Prim(Prim::ChoiceIdx, e)
        }
        2 => {
            let n = t.choose(20);
            let f = (0..n)
                .map(|i| Field { name: format!("f{}", i), ty: Ty::Null, optional: true, key: false })
                .collect();
            Codec::Prim(Prim::SeqHdr, Ty::Seq { fields: f, ext: if t.coin() { Some(vec![]) } else { None } })
        }
        4 => Codec::Prim(Prim::Plain, Ty::Small),
        _ => {
            let mut s = gen_size(t, 65535);
            if let Some(s) = &mut s {
                s.ext = false;
            }
            Codec::Prim(Prim::Len, Ty::SeqOf { elem: Box::new(Ty::Null), size: s })
        }
    }
}

/// Prim ENUMERATED reports any addition index, like CHOICE indices do.
fn widen(c: Codec) -> Codec {
    match c {
        Codec::Prim(p, Ty::Enum { root, ext: Some(_) }) => {
            Codec::Prim(p, Ty::Enum { root, ext: Some((0..200).map(|i| format!("x{}", i)).collect()) })
        }
        c => c,
    }
}

fn pick(t: &mut Tape, ix: &Index, list: &[usize]) -> Codec {
    if ix.prims && (list.is_empty() || t.chance(1, 3)) {
        widen(prim(t))
    } else {
        Codec::Reg(list[t.idx(list.len())])
    }
}

fn value(t: &mut Tape, types: &Types, c: &Codec, big: bool, ext: bool) -> Val {
    let mut g = VGen::new(&types.env);
    g.budget = match t.choose(4) {
        0 => 40,
        3 => 1200,
        _ => 200,
    };
    g.big = big;
    g.ext = ext;
    if let Codec::Prim(Prim::Len, _) = c {
        g.big = false;
        g.budget = 16000;
    }
    let mut v = g.val(t, types.ty(c));
    if let (Codec::Prim(Prim::Len, ty), Val::SeqOf(l)) = (c, &mut v) {
        // a general length of 16K or more is a fragment header, not a length
        let general = match ty {
            Ty::SeqOf { size: Some(Size { ub: Some(u), .. }), .. } => *u >= 65536,
            _ => true,
        };
        if general {
            l.truncate(16383);
        }
    }
    v
}

fn big_run(ctx: &mut Ctx) -> bool {
    ctx.t.chance(1, 24)
}

// ------------------------------------------------------------------ reference messages

pub struct Part {
    pub codec: Codec,
    /// what the sender sent, in the sender's version
    pub val: Val,
    /// the receiver's view of it; None: it has no way to represent it
    pub expect: Option<Val>,
    pub ext: bool,
    pub end: usize,
    pub start: usize,
}

pub struct Msg {
    pub prefix: Vec<bool>,
    pub parts: Vec<Part>,
    pub w: BitW,
    pub marks: Vec<(usize, &'static str)>,
}

fn prefix_bits(t: &mut Tape) -> Vec<bool> {
    let n = t.choose(9) as usize;
    let v = t.choose(256);
    (0..n).map(|i| v >> (i % 8) & 1 == 1).collect()
}

fn new_msg(t: &mut Tape) -> Msg {
    let p = prefix_bits(t);
    new_msg_with(&p)
}

fn new_msg_with(p: &[bool]) -> Msg {
    let mut w = BitW::new();
    for b in p {
        w.bit(*b);
    }
    Msg { prefix: p.to_vec(), parts: vec![], w, marks: vec![] }
}

fn ref_part(
    types: &Types,
    m: &mut Msg,
    codec: Codec,
    env: &Env,
    ty: &Ty,
    val: Val,
    mods: Vec<(usize, OpenMod)>,
) -> Result<(), String> {
    let start = m.w.len;
    let mut e = Enc::new(env);
    e.w = std::mem::take(&mut m.w);
    e.open_mod = mods;
    let r = e.val(ty, &val);
    m.w = e.w;
    m.marks.append(&mut e.marks.at);
    r?;
    let ext = has_ext(env, ty, &val);
    let expect = project(&types.env, types.ty(&codec), &val);
    let end = m.w.len;
    m.parts.push(Part { codec, val, expect, ext, end, start });
    Ok(())
}

/// Sender = reference node: a message of 1.. parts.
fn ref_msg(ctx: &mut Ctx, types: &Types, ix: &Index, list: &[usize], ext: bool, big: bool) -> Msg {
    let mut m = new_msg(ctx.t);
    let n = 1 + ctx.t.weighted(&[4, 3, 2, 1]);
    for _ in 0..n {
        let c = pick(ctx.t, ix, list);
        let v = value(ctx.t, types, &c, big, ext);
        let ty = types.ty(&c).clone();
        if ref_part(types, &mut m, c, &types.env, &ty, v, vec![]).is_err() {
            ctx.stats.inc("ref_encode_error");
            break;
        }
        if m.w.len > 4_000_000 {
            break;
        }
    }
    m
}

fn describe(types: &Types, m: &Msg) -> String {
    let p: Vec<String> = m
        .parts
        .iter()
        .map(|p| format!("{} = {} @bits {}..{}", types.name(&p.codec), show(&p.val), p.start, p.end))
        .collect();
    format!("{} prefix bits, {} : {}", m.prefix.len(), hex(&m.w.bytes), p.join(" ; "))
}

fn tdesc(types: &Types, c: &Codec) -> String {
    match c {
        Codec::Reg(i) => {
            let s = format!("{:?}", types.env.types[*i].1);
            format!("{}({})", types.env.types[*i].0, &s[..s.len().min(400)])
        }
        c => types.name(c),
    }
}

// ------------------------------------------------------------------ network runs

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// conformant sender, faultless bytes: exact values (C10)
    Exact,
    /// later-version sender (C17)
    Evolved,
    /// truncated (C14)
    Cut,
    /// corrupted (C12)
    Corrupt,
    /// open type frames longer or shorter than the carried value (C16)
    Frames,
    /// bindings compiled from a specification (C18)
    Spec,
}

pub fn network(ctx: &mut Ctx, types: &Types, ix: &Index, mode: Mode) -> Res {
    let nodes = 2 + ctx.t.idx(3);
    let mut q = Queue::default();
    let mut msgs: Vec<Msg> = vec![];
    let mut frames_exact: Vec<bool> = vec![];
    let count = 1 + ctx.t.weighted(&[3, 3, 2, 1, 1, 1]);
    let big = matches!(mode, Mode::Exact | Mode::Cut | Mode::Frames | Mode::Spec) && big_run(ctx);
    let jitter = [1u64, 50, 5_000, 2_000_000][ctx.t.idx(4)];
    for i in 0..count {
        let time = ctx.t.choose(1_000);
        q.at(time, Ev::Send(i));
        let mut exact = true;
        let m = match mode {
            Mode::Evolved => {
                let mut m = new_msg(ctx.t);
                let n = 1 + ctx.t.idx(3);
                for _ in 0..n {
                    let c = pick(ctx.t, ix, &ix.ext);
                    match &c {
                        Codec::Reg(r) => {
                            let env2 = evolve_env(ctx.t, &types.env, *r);
                            let mut g = VGen::new(&env2);
                            g.ext = true;
                            g.budget = 120;
                            let ty = Ty::Ref(*r);
                            let v = g.val(ctx.t, &ty);
                            if ref_part(types, &mut m, c, &env2, &ty, v, vec![]).is_err() {
                                ctx.stats.inc("ref_encode_error");
                                break;
                            }
                        }
                        Codec::Prim(_, ty) => {
                            let v = value(ctx.t, types, &c, false, true);
                            let ty = ty.clone();
                            if ref_part(types, &mut m, c, &types.env, &ty, v, vec![]).is_err() {
                                break;
                            }
                        }
                    }
                }
                m
            }
            Mode::Frames => {
                let mut m = new_msg(ctx.t);
                let n = 1 + ctx.t.idx(3);
                for _ in 0..n {
                    if ix.open.is_empty() {
                        break;
                    }
                    let c = Codec::Reg(ix.open[ctx.t.idx(ix.open.len())]);
                    let v = value(ctx.t, types, &c, big, false);
                    let mut mods = vec![];
                    let k = ctx.t.weighted(&[2, 3, 2, 1]);
                    for _ in 0..k {
                        let at = ctx.t.idx(6);
                        if ctx.t.chance(1, 4) {
                            mods.push((at, OpenMod::Drop(1 + ctx.t.idx(3))));
                            exact = false;
                            ctx.stats.inc("fault_frame_shortened");
                        } else {
                            let n = match ctx.t.choose(8) {
                                6 => 120 + ctx.t.idx(20),
                                7 if big => 16380 + ctx.t.idx(10),
                                _ => 1 + ctx.t.idx(6),
                            };
                            let x = fill(1 + ctx.t.choose(1000), n);
                            mods.push((at, OpenMod::Extra(x)));
                            ctx.stats.inc("fault_frame_extended");
                        }
                    }
                    let ty = types.ty(&c).clone();
                    if ref_part(types, &mut m, c, &types.env, &ty, v, mods).is_err() {
                        break;
                    }
                }
                m
            }
            Mode::Exact | Mode::Spec => ref_msg(ctx, types, ix, &ix.regs, true, big),
            Mode::Cut => ref_msg(ctx, types, ix, &ix.regs, false, big),
            Mode::Corrupt => ref_msg(ctx, types, ix, &ix.regs, true, false),
        };
        ctx.log(|| format!("t={} node {} (reference) sends #{}: {}", time, i % nodes, i, describe(types, &m)));
        frames_exact.push(exact);
        msgs.push(m);
    }
    // crashes of receivers
    let mut up_at = vec![0u64; nodes];
    if ctx.t.chance(1, 6) {
        let n = ctx.t.idx(nodes);
        let at = ctx.t.choose(1_500);
        q.at(at, Ev::Crash(n));
    }
    let mut grams: Vec<Datagram> = vec![];
    let mut steps = 0;
    while let Some(ev) = q.pop() {
        steps += 1;
        if steps > 200 {
            break;
        }
        match ev {
            Ev::Send(i) => {
                ctx.stats.inc("datagrams_sent");
                if ctx.t.chance(1, 12) {
                    ctx.stats.inc("fault_drop");
                    ctx.log(|| format!("t={} #{} lost", q.now, i));
                    continue;
                }
                let copies = if ctx.t.chance(1, 8) {
                    ctx.stats.inc("fault_duplicate");
                    2
                } else {
                    1
                };
                for c in 0..copies {
                    let mut bytes = msgs[i].w.bytes.clone();
                    let mut faults = vec![];
                    match mode {
                        Mode::Cut => {
                            if !bytes.is_empty() {
                                let l = match ctx.t.choose(4) {
                                    0 => bytes.len() - 1,
                                    1 if !msgs[i].marks.is_empty() => {
                                        let k = ctx.t.idx(msgs[i].marks.len());
                                        (msgs[i].marks[k].0 / 8 + ctx.t.idx(3)).min(bytes.len() - 1)
                                    }
                                    _ => ctx.t.idx(bytes.len()),
                                };
                                bytes.truncate(l);
                                faults.push(Fault::Cut(l));
                                ctx.stats.inc("fault_truncate");
                            }
                        }
                        Mode::Corrupt => {
                            let o = ctx.t.idx(msgs.len());
                            let other = msgs[o].w.bytes.clone();
                            faults = corrupt(
                                ctx.t,
                                &mut bytes,
                                &msgs[i].marks,
                                Some(&other),
                                ctx.stats,
                            );
                        }
                        _ => {}
                    }
                    let delay = 10 + ctx.t.choose(jitter);
                    if delay > 1000 {
                        ctx.stats.inc("fault_delay");
                    }
                    let to = ctx.t.idx(nodes);
                    grams.push(Datagram { id: i, from: i % nodes, to, bytes, faults, copy: c });
                    let g = grams.len() - 1;
                    let at = q.now + delay;
                    q.at(at, Ev::Deliver(g));
                }
            }
            Ev::Crash(n) => {
                ctx.stats.inc("fault_crash");
                let down = 1 + ctx.t.choose(3_000);
                up_at[n] = q.now + down;
                ctx.log(|| format!("t={} node {} crashes for {}us", q.now, n, down));
                let at = up_at[n];
                q.at(at, Ev::Restart(n));
            }
            Ev::Restart(n) => {
                ctx.log(|| format!("t={} node {} restarts", q.now, n));
            }
            Ev::Deliver(g) => {
                let d = grams[g].clone();
                if up_at[d.to] > q.now {
                    ctx.stats.inc("fault_lost_to_crash");
                    ctx.log(|| format!("t={} #{} lost: node {} is down", q.now, d.id, d.to));
                    continue;
                }
                if grams[..g].iter().any(|o| o.id > d.id) {
                    ctx.stats.inc("reordered");
                }
                ctx.stats.inc("datagrams_delivered");
                ctx.hash(&d.bytes);
                let now = q.now;
                ctx.log(|| {
                    format!("t={} node {} receives #{} copy {} faults {:?}: {}", now, d.to, d.id, d.copy, d.faults, hex(&d.bytes))
                });
                let m = &msgs[d.id];
                match mode {
                    Mode::Exact | Mode::Evolved | Mode::Spec => recv_exact(ctx, types, m, &d.bytes)?,
                    Mode::Frames => {
                        if frames_exact[d.id] {
                            recv_exact(ctx, types, m, &d.bytes)?
                        } else {
                            recv_lenient(ctx, types, m, &d.bytes)?
                        }
                    }
                    Mode::Cut => recv_cut(ctx, types, m, &d.bytes)?,
                    Mode::Corrupt => recv_lenient(ctx, types, m, &d.bytes)?,
                }
            }
        }
    }
    ctx.stats.sim_us += q.now;
    Ok(())
}

fn start(types: &Types, m: &Msg, bytes: &[u8]) -> Result<AperCodecData, String> {
    let _ = types;
    let mut d = AperCodecData::from_slice(bytes);
    let p = skip_prefix(&mut d, m.prefix.len())?;
    if p != m.prefix {
        return Err("prefix bits differ".into());
    }
    Ok(d)
}

/// Faultless bytes from a conformant sender.
fn recv_exact(ctx: &mut Ctx, types: &Types, m: &Msg, bytes: &[u8]) -> Res {
    let mut d = match start(types, m, bytes) {
        Ok(d) => d,
        Err(e) => return viol("prefix", e),
    };
    for p in &m.parts {
        let r = types.decode(&p.codec, &mut d);
        ctx.log(|| format!("   decode {} -> {}", types.name(&p.codec), r.short()));
        match r {
            DecOut::Panic(e) => {
                return viol("panic", format!("decoding {} from a conformant peer panics: {}; sent {}", tdesc(types, &p.codec), e, show(&p.val)))
            }
            DecOut::Ok(v) => {
                ctx.stats.inc("decoded_ok");
                ctx.nontrivial = true;
                match &p.expect {
                    Some(e) if *e == v => {
                        if p.ext {
                            ctx.stats.inc("extension_values_understood");
                        }
                    }
                    Some(e) => {
                        return viol("misread", format!("{} was sent {} and read {}", tdesc(types, &p.codec), show(e), show(&v)))
                    }
                    None => {
                        return viol("misread", format!("{} was sent {} (unknown to the receiver) and read {}", tdesc(types, &p.codec), show(&p.val), show(&v)))
                    }
                }
            }
            DecOut::Err(e) => {
                let may = p.ext
                    || match &p.expect {
                        None => true,
                        Some(x) => !types.representable(&p.codec, x),
                    };
                if !may {
                    return viol("refused", format!("{} was sent {} and refused: {}", tdesc(types, &p.codec), show(&p.val), e));
                }
                ctx.stats.inc("refused_extension");
                ctx.hash(&[1]);
                return Ok(());
            }
        }
    }
    let left = match drain(&mut d) {
        Ok(l) => l,
        Err(e) => return viol("panic", e),
    };
    let want = bytes.len() * 8 - m.w.len;
    if left != want {
        return viol("desync", format!("{} unread bits instead of {} after {}", left, want, describe(types, m)));
    }
    Ok(())
}

fn recv_cut(ctx: &mut Ctx, types: &Types, m: &Msg, bytes: &[u8]) -> Res {
    let mut d = match start(types, m, bytes) {
        Ok(d) => d,
        Err(_) => return Ok(()),
    };
    for p in &m.parts {
        let whole = p.end <= bytes.len() * 8;
        let r = types.decode(&p.codec, &mut d);
        ctx.log(|| format!("   decode {} ({}) -> {}", types.name(&p.codec), if whole { "whole" } else { "cut" }, r.short()));
        match r {
            DecOut::Panic(e) => {
                return viol("panic", format!("{} cut at octet {} panics: {}", tdesc(types, &p.codec), bytes.len(), e))
            }
            DecOut::Ok(v) => {
                if p.expect.as_ref() != Some(&v) {
                    return viol("misread", format!("{} sent as {} and cut at octet {} was read as {}", tdesc(types, &p.codec), show(&p.val), bytes.len(), show(&v)));
                }
                ctx.stats.inc(if whole { "whole_before_cut" } else { "complete_despite_cut" });
            }
            DecOut::Err(e) => {
                if whole && types.representable(&p.codec, &p.val) && !p.ext {
                    return viol("refused", format!("{} lies whole before the cut at octet {} but was refused: {}", tdesc(types, &p.codec), bytes.len(), e));
                }
                if !whole {
                    ctx.stats.inc("cut_reported");
                    ctx.nontrivial = true;
                }
                return Ok(());
            }
        }
    }
    Ok(())
}

/// Corrupted bytes: whatever hampi accepts must be what a conformant decoder reads, within bounds.
fn recv_lenient(ctx: &mut Ctx, types: &Types, m: &Msg, bytes: &[u8]) -> Res {
    let mut d = AperCodecData::from_slice(bytes);
    if skip_prefix(&mut d, m.prefix.len()).is_err() {
        return Ok(());
    }
    let mut rd = Dec::new(&types.env, bytes);
    rd.pos = m.prefix.len();
    let codecs: Vec<Codec> = m.parts.iter().map(|p| p.codec.clone()).collect();
    lenient(ctx, types, &codecs, &mut d, &mut rd)
}

fn lenient(ctx: &mut Ctx, types: &Types, codecs: &[Codec], d: &mut AperCodecData, rd: &mut Dec) -> Res {
    for c in codecs {
        let ty = types.ty(c).clone();
        if let Codec::Prim(Prim::SeqHdr, _) = c {
            return Ok(()); // additions follow separately
        }
        let from = rd.pos;
        let r = types.decode(c, d);
        match r {
            DecOut::Panic(e) => return viol("panic", format!("decoding {} panics: {}", tdesc(types, c), e)),
            DecOut::Err(e) => {
                ctx.log(|| format!("   decode {} -> Err({})", types.name(c), e));
                ctx.stats.inc("rejected");
                ctx.hash(&[2]);
                return Ok(());
            }
            DecOut::Ok(v) => {
                ctx.log(|| format!("   decode {} -> {}", types.name(c), show(&v)));
                ctx.stats.inc("accepted");
                ctx.nontrivial = true;
                if let Codec::Prim(Prim::Len, _) = c {
                    return Ok(());
                }
                if let (Codec::Prim(_, Ty::Small), Val::Int(n)) = (c, &v) {
                    // none at all, or a fragment: the caller has to notice
                    if *n == 0 || *n >= 16384 {
                        return Ok(());
                    }
                }
                if let (Codec::Prim(..), Val::EnumExt(i)) = (c, &v) {
                    // the runtime reports any addition; the derived code decides
                    if *i >= 200 {
                        return Ok(());
                    }
                }
                if let Err(e) = valid(&types.env, &ty, &v, true) {
                    return viol("out-of-constraint", format!("{} from corrupted bytes was read as {}, violating its constraints: {}", tdesc(types, c), show(&v), e));
                }
                let rv = match rd.val(&ty) {
                    Ok(rv) => rv,
                    Err(e) if e == "budget" => return Ok(()),
                    Err(e) => {
                        return viol("invented", format!("{} at bit {} was read as {}; a conformant decoder rejects these bytes: {}", tdesc(types, c), from, show(&v), e))
                    }
                };
                let p = project(&types.env, &ty, &rv);
                if p.as_ref() != Some(&v) {
                    return viol("misread", format!("{} at bit {} was read as {}; a conformant decoder reads {}", tdesc(types, c), from, show(&v), show(&rv)));
                }
            }
        }
    }
    let left = match drain(d) {
        Ok(l) => l,
        Err(e) => return viol("panic", e),
    };
    if left != rd.end - rd.pos {
        return viol("desync", format!("{} bits unread, a conformant decoder leaves {}", left, rd.end - rd.pos));
    }
    Ok(())
}

// ------------------------------------------------------------------ senders

/// hampi nodes build datagrams concurrently; a reference peer checks every bit (C09).
pub fn sending(ctx: &mut Ctx, types: &Types, ix: &Index, list: &[usize]) -> Res {
    struct Out {
        d: AperCodecData,
        m: Msg,
        dead: bool,
    }
    let n = 1 + ctx.t.idx(4);
    let big = big_run(ctx);
    let mut outs: Vec<Out> = vec![];
    for _ in 0..n {
        let m = new_msg(ctx.t);
        let mut d = AperCodecData::new();
        prefix(&mut d, &m.prefix);
        outs.push(Out { d, m, dead: false });
    }
    let steps = 1 + ctx.t.choose(8);
    for _ in 0..steps {
        let k = ctx.t.idx(n);
        let c = pick(ctx.t, ix, list);
        let v = value(ctx.t, types, &c, big, false);
        if outs[k].dead {
            continue;
        }
        let ty = types.ty(&c).clone();
        let r = types.encode(&c, &v, &mut outs[k].d);
        ctx.log(|| format!("node {} encodes {} = {} -> {:?}", k, types.name(&c), show(&v), r));
        match r {
            EncOut::Unrep => {
                ctx.stats.inc("unrepresentable");
                continue;
            }
            EncOut::Panic(e) => {
                return viol("panic", format!("encoding {} = {} panics: {}", tdesc(types, &c), show(&v), e))
            }
            EncOut::Err(e) => {
                if max_frame(&types.env, &ty, &v) < 16384 {
                    return viol("refused", format!("valid value {} of {} is not encoded: {}", show(&v), tdesc(types, &c), e));
                }
                ctx.stats.inc("refused_16k");
                outs[k].dead = true;
                continue;
            }
            EncOut::Ok => {}
        }
        ctx.stats.inc("encoded_ok");
        ctx.nontrivial = true;
        if let Err(e) = ref_part(types, &mut outs[k].m, c, &types.env, &ty, v, vec![]) {
            return viol("invented", format!("hampi encoded what the reference cannot: {}", e));
        }
        // crash of a sender: its buffer is gone
        if ctx.t.chance(1, 20) {
            ctx.stats.inc("fault_sender_crash");
            outs[k].dead = true;
        }
    }
    for o in outs {
        if o.dead {
            continue;
        }
        let bytes = if ctx.t.coin() {
            match o.d.get_inner() {
                Ok(b) => b,
                Err(e) => return viol("refused", format!("{:?}", e)),
            }
        } else {
            o.d.into_bytes()
        };
        ctx.stats.inc("datagrams_delivered");
        ctx.hash(&bytes);
        if bytes != o.m.w.bytes {
            // which part?
            let at = (0..o.m.w.len)
                .find(|i| bytes.get(i / 8).map_or(true, |b| (b & (0x80 >> (i % 8)) != 0) != o.m.w.get(*i)))
                .unwrap_or(o.m.w.len);
            let part = o.m.parts.iter().find(|p| at >= p.start && at < p.end);
            let what = match part {
                Some(p) => format!("{} = {}", tdesc(types, &p.codec), show(&p.val)),
                None => "final padding".to_string(),
            };
            let kind = if part.is_some() { "wrong-bits" } else { "wrong-length" };
            return viol(kind, format!("first difference at bit {} in {}: sent {} expected {} ({})", at, what, hex(&bytes), hex(&o.m.w.bytes), describe(types, &o.m)));
        }
    }
    Ok(())
}

/// Largest length determinant the encoding of `v` needs (including open type frames).
fn max_frame(env: &Env, ty: &Ty, v: &Val) -> usize {
    let m = max_len(v);
    // an open type frame can be long although no single value in it is
    match encode_into(env, BitW::new(), ty, v) {
        Ok((w, _)) if has_open(env, ty) => m.max(w.bytes.len()),
        _ => m,
    }
}

fn has_open(env: &Env, ty: &Ty) -> bool {
    match env.res(ty) {
        Ty::Open(_) => true,
        Ty::Seq { fields, .. } => fields.iter().any(|f| has_open(env, &f.ty)),
        Ty::SeqOf { elem, .. } => has_open(env, elem),
        Ty::Choice { alts, .. } => alts.iter().any(|a| has_open(env, &a.ty)),
        _ => false,
    }
}

/// Out-of-constraint values (C11).
pub fn violating(ctx: &mut Ctx, types: &Types, ix: &Index) -> Res {
    let m = new_msg(ctx.t);
    let n = 1 + ctx.t.choose(6);
    for _ in 0..n {
        let c = pick(ctx.t, ix, &ix.regs);
        if let Codec::Prim(Prim::SeqHdr, _) = c {
            continue;
        }
        let ty = types.ty(&c).clone();
        let mut g = VGen::new(&types.env);
        g.budget = 60;
        let v = match g.invalid(ctx.t, &ty) {
            None => {
                ctx.stats.inc("nothing_to_violate");
                continue;
            }
            Some(v) => v,
        };
        let mut d = AperCodecData::new();
        prefix(&mut d, &m.prefix);
        // a valid message may precede it in the same datagram
        if ctx.t.chance(1, 3) {
            let c2 = pick(ctx.t, ix, &ix.regs);
            let v2 = value(ctx.t, types, &c2, false, false);
            let _ = types.encode(&c2, &v2, &mut d);
        }
        let before = match d.get_inner() {
            Ok(b) => b,
            Err(_) => continue,
        };
        let _ = before;
        let r = types.encode(&c, &v, &mut d);
        ctx.log(|| format!("encode {} = {} -> {:?}", types.name(&c), show(&v), r));
        ctx.hash(types.name(&c).as_bytes());
        ctx.hash(show(&v).as_bytes());
        if let Codec::Prim(p, _) = &c {
            let mut d3 = AperCodecData::new();
            prefix(&mut d3, &m.prefix);
            let x = if matches!(ty, Ty::Enum { .. }) { value(ctx.t, types, &c, false, true) } else { v.clone() };
            match prim_enc_ext(*p, &ty, &x, &mut d3) {
                None => {}
                Some(EncOut::Panic(e)) => return viol("panic", format!("encoding {} = {} as an extension panics: {}", tdesc(types, &c), show(&x), e)),
                Some(EncOut::Ok) => {
                    let mut w = new_msg_with(&m.prefix);
                    let same = match ref_part(types, &mut w, c.clone(), &types.env, &ty, x.clone(), vec![]) {
                        Ok(()) => d3.into_bytes() == w.w.bytes,
                        Err(_) => false,
                    };
                    if !same {
                        return viol("sent", format!("{} = {} was encoded as an extension in other bits than X.691 asks for", tdesc(types, &c), show(&x)));
                    }
                    ctx.stats.inc("sent_as_extension");
                }
                Some(_) => ctx.stats.inc("extension_refused"),
            }
        }
        match r {
            EncOut::Unrep => ctx.stats.inc("unrepresentable"),
            EncOut::Err(_) => {
                ctx.stats.inc("refused");
                ctx.nontrivial = true;
            }
            EncOut::Panic(e) => {
                return viol("panic", format!("encoding {} = {} panics: {}", tdesc(types, &c), show(&v), e))
            }
            EncOut::Ok => {
                // allowed only as a proper extension value
                if valid(&types.env, &ty, &v, true).is_ok() {
                    let mut d2 = AperCodecData::new();
                    if types.encode(&c, &v, &mut d2) == EncOut::Ok {
                        let bytes = d2.into_bytes();
                        let mut rd = Dec::new(&types.env, &bytes);
                        if rd.val(&ty) == Ok(v.clone()) {
                            ctx.stats.inc("sent_as_extension");
                            continue;
                        }
                    }
                }
                let why = valid(&types.env, &ty, &v, false).err().unwrap_or_default();
                return viol("sent", format!("{} = {} was encoded although {}", tdesc(types, &c), show(&v), why));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ streams

/// One message of a stream: how it was written, what it is, and whether it starts on an octet boundary.
type Entry8 = (Codec, Val, bool);

/// Writers and readers interleaved on one buffer (C08).
pub fn stream(ctx: &mut Ctx, types: &Types, ix: &Index) -> Res {
    let mut d = AperCodecData::new();
    let pre = prefix_bits(ctx.t);
    prefix(&mut d, &pre);
    if let Err(e) = skip_prefix(&mut d, pre.len()) {
        return viol("prefix", e);
    }
    let mut hist: Vec<Entry8> = vec![];
    let mut read = 0;
    let big = big_run(ctx);
    let steps = 2 + ctx.t.choose(24);
    let bias = ctx.t.choose(3);
    let mut bits = 0usize;
    for _ in 0..steps {
        match ctx.t.weighted(&[4, 2 + bias, 1]) {
            0 => {
                let c = pick(ctx.t, ix, &ix.regs);
                let v = value(ctx.t, types, &c, big, false);
                if bits > 3_000_000 {
                    continue;
                }
                // some writers put a message together elsewhere and append it on an octet boundary
                let apart = ctx.t.chance(1, 10);
                let mut own = AperCodecData::new();
                let r = types.encode(&c, &v, if apart { &mut own } else { &mut d });
                ctx.log(|| format!("write{} {} = {} -> {:?}", if apart { " apart" } else { "" }, types.name(&c), show(&v), r));
                if apart && r == EncOut::Ok {
                    ctx.stats.inc("appended_aligned");
                    let (a, b) = (d.length_in_bytes(), own.length_in_bytes());
                    d.append_aligned(&mut own);
                    if d.length_in_bytes() != a + b {
                        return viol("length", format!("{} octets and {} octets appended make {} octets", a, b, d.length_in_bytes()));
                    }
                }
                match r {
                    EncOut::Unrep => {
                        ctx.stats.inc("unrepresentable");
                    }
                    EncOut::Panic(e) => {
                        return viol("panic", format!("encoding {} = {} panics: {}", tdesc(types, &c), show(&v), e))
                    }
                    EncOut::Err(e) => {
                        if max_frame(&types.env, types.ty(&c), &v) < 16384 {
                            return viol("refused", format!("valid value {} of {} is not encoded: {}", show(&v), tdesc(types, &c), e));
                        }
                        ctx.stats.inc("refused_16k");
                        return Ok(()); // the buffer holds half a message now
                    }
                    EncOut::Ok => {
                        ctx.stats.inc("written");
                        ctx.hash(types.name(&c).as_bytes());
                        bits += 8 * max_len(&v);
                        hist.push((c, v, apart));
                    }
                }
            }
            1 => {
                if read < hist.len() {
                    read_one(ctx, types, &mut d, &hist[read], "same buffer")?;
                    read += 1;
                }
            }
            _ => {
                // a second reader takes a copy of the bytes and reads everything so far
                ctx.stats.inc("snapshot_readers");
                let b = match d.get_inner() {
                    Ok(b) => b,
                    Err(e) => return viol("refused", format!("{:?}", e)),
                };
                let mut s = AperCodecData::from_slice(&b);
                if skip_prefix(&mut s, pre.len()).ok().as_ref() != Some(&pre) {
                    return viol("prefix", "prefix bits differ in the copy");
                }
                for h in &hist {
                    read_one(ctx, types, &mut s, h, "copy")?;
                }
                let left = match drain(&mut s) {
                    Ok(l) => l,
                    Err(e) => return viol("panic", e),
                };
                if left > 7 {
                    return viol("desync", format!("{} bits left in the copy after the last message", left));
                }
            }
        }
    }
    while read < hist.len() {
        read_one(ctx, types, &mut d, &hist[read], "same buffer")?;
        read += 1;
    }
    match drain(&mut d) {
        Ok(0) => {}
        Ok(n) => return viol("desync", format!("{} bits left after the last message was read", n)),
        Err(e) => return viol("panic", e),
    }
    let b = match d.get_inner() {
        Ok(b) => b,
        Err(e) => return viol("refused", format!("{:?}", e)),
    };
    ctx.hash(&b);
    Ok(())
}

fn read_one(ctx: &mut Ctx, types: &Types, d: &mut AperCodecData, h: &Entry8, who: &str) -> Res {
    if h.2 {
        if let Err(e) = d.decode_align() {
            return viol("refused", format!("the {} can not be aligned before {}: {:?}", who, tdesc(types, &h.0), e));
        }
    }
    let r = types.decode(&h.0, d);
    ctx.log(|| format!("read ({}) {} -> {}", who, types.name(&h.0), r.short()));
    if h.2 && !matches!(r, DecOut::Panic(_)) {
        if let Err(e) = d.decode_align() {
            return viol("refused", format!("the {} can not be aligned after {}: {:?}", who, tdesc(types, &h.0), e));
        }
    }
    match r {
        DecOut::Ok(v) if v == h.1 => {
            ctx.stats.inc("read_ok");
            ctx.nontrivial = true;
            Ok(())
        }
        DecOut::Ok(v) => viol("misread", format!("{} was written as {} and read from the {} as {}", tdesc(types, &h.0), show(&h.1), who, show(&v))),
        DecOut::Err(e) => viol("refused", format!("{} was written as {} and refused by the reader of the {}: {}", tdesc(types, &h.0), show(&h.1), who, e)),
        DecOut::Panic(e) => viol("panic", format!("reading {} = {} panics: {}", tdesc(types, &h.0), show(&h.1), e)),
    }
}

/// Decoding is independent of history (C15).
pub fn histories(ctx: &mut Ctx, types: &Types, ix: &Index) -> Res {
    if ctx.t.chance(1, 3) {
        return starvation(ctx, types, ix);
    }
    let nodes = 1 + ctx.t.idx(2);
    let mut bufs: Vec<(Vec<u8>, Vec<Part>, AperCodecData)> = vec![];
    for _ in 0..nodes {
        let list = if ctx.t.coin() && !ix.open.is_empty() { &ix.open } else { &ix.regs };
        let m = ref_msg(ctx, types, ix, list, true, false);
        let mut b = m.w.bytes.clone();
        if ctx.t.chance(1, 3) {
            corrupt(ctx.t, &mut b, &m.marks, None, ctx.stats);
        }
        ctx.log(|| format!("buffer: {} ({})", hex(&b), describe(types, &m)));
        let d = AperCodecData::from_slice(&b);
        bufs.push((b, m.parts, d));
    }
    let steps = 2 + ctx.t.choose(10);
    for _ in 0..steps {
        let k = ctx.t.idx(nodes);
        let (b, parts, d) = &mut bufs[k];
        if parts.is_empty() {
            continue;
        }
        // an unrelated encode elsewhere in between
        if ctx.t.chance(1, 6) {
            let c = pick(ctx.t, ix, &ix.regs);
            let v = value(ctx.t, types, &c, false, false);
            let mut o = AperCodecData::new();
            let _ = types.encode(&c, &v, &mut o);
        }
        let p = &parts[ctx.t.idx(parts.len())];
        let off = match ctx.t.choose(4) {
            3 => ctx.t.idx(b.len() * 8 + 1),
            _ => p.start.min(b.len() * 8),
        };
        let c = if ctx.t.chance(1, 4) { pick(ctx.t, ix, &ix.regs) } else { p.codec.clone() };
        d.seek(off);
        let r1 = types.decode(&c, d);
        let mut f = AperCodecData::from_slice(b);
        f.seek(off);
        let r2 = types.decode(&c, &mut f);
        ctx.log(|| format!("node {} at bit {} decode {} -> {} / fresh {}", k, off, types.name(&c), r1.short(), r2.short()));
        ctx.hash(r1.short().as_bytes());
        match (&r1, &r2) {
            (DecOut::Panic(e), _) | (_, DecOut::Panic(e)) => {
                return viol("panic", format!("decoding {} at bit {} panics: {}", tdesc(types, &c), off, e))
            }
            (DecOut::Ok(a), DecOut::Ok(b2)) => {
                ctx.stats.inc("agree_ok");
                ctx.nontrivial = true;
                if a != b2 {
                    return viol("history", format!("{} at bit {} reads {} on the used buffer and {} on a fresh one", tdesc(types, &c), off, show(a), show(b2)));
                }
                let (x, y) = (drain(d), drain(&mut f));
                if x != y {
                    return viol("history", format!("{} at bit {} leaves {:?} bits on the used buffer, {:?} on a fresh one", tdesc(types, &c), off, x, y));
                }
            }
            (DecOut::Err(_), DecOut::Err(_)) => {
                ctx.stats.inc("agree_err");
            }
            _ => {
                return viol("history", format!("{} at bit {}: used buffer {}, fresh buffer {}", tdesc(types, &c), off, r1.short(), r2.short()))
            }
        }
    }
    Ok(())
}

/// Bytes trickle in; the reader retries from the start of the message.
fn starvation(ctx: &mut Ctx, types: &Types, ix: &Index) -> Res {
    let m = ref_msg(ctx, types, ix, &ix.regs, false, false);
    if m.w.len > 20_000 || m.parts.is_empty() {
        return Ok(());
    }
    ctx.log(|| format!("trickling {}", describe(types, &m)));
    let mut d = AperCodecData::new();
    let mut have = 0;
    let total = m.w.bytes.len() * 8;
    let bytewise = ctx.t.coin();
    let mut next = 0; // next part
    let mut pos = m.prefix.len();
    let mut rounds = 0;
    while next < m.parts.len() {
        rounds += 1;
        let p = &m.parts[next];
        let more = match ctx.t.choose(4) {
            0 => total,
            1 => 1 + ctx.t.idx(40),
            2 => 1,
            _ => 0,
        };
        let more = if rounds > 300 { total } else { more };
        let more = if bytewise { (more + 7) / 8 * 8 } else { more };
        // bias: stop inside the current message half of the time
        let mut to = (have + more).min(total);
        if rounds <= 300 && ctx.t.coin() && p.end > p.start && have < p.end {
            to = to.min((p.start + ctx.t.idx(p.end - p.start)).max(have));
            if bytewise {
                to = (to + 7) / 8 * 8;
            }
        }
        if more == 0 && ctx.t.chance(1, 3) {
            to = total;
        }
        for i in have..to {
            prefix(&mut d, &[m.w.get(i)]);
        }
        have = to.max(have);
        d.seek(pos.min(have));
        if have < pos {
            continue;
        }
        let r = types.decode(&p.codec, &mut d);
        ctx.log(|| format!("{} of {} bits there, decode {} at {} -> {}", have, total, types.name(&p.codec), pos, r.short()));
        ctx.stats.inc("retries");
        match r {
            DecOut::Panic(e) => return viol("panic", format!("decoding {} with {} of {} bits there panics: {}", tdesc(types, &p.codec), have, total, e)),
            DecOut::Ok(v) => {
                if v != p.val {
                    return viol("misread", format!("{} sent as {} read as {} with {} bits there", tdesc(types, &p.codec), show(&p.val), show(&v), have));
                }
                ctx.stats.inc("decoded_ok");
                ctx.nontrivial = true;
                pos = p.end;
                next += 1;
            }
            DecOut::Err(e) => {
                if have >= p.end {
                    if !types.representable(&p.codec, &p.val) {
                        return Ok(());
                    }
                    return viol("refused", format!("{} = {} refused although all its bits are there: {}", tdesc(types, &p.codec), show(&p.val), e));
                }
                ctx.stats.inc("starved");
            }
        }
        ctx.hash(&[have as u8, next as u8]);
    }
    Ok(())
}

// ------------------------------------------------------------------ hostile bytes

pub fn hostile(ctx: &mut Ctx, types: &Types, ix: &Index) -> Res {
    let mut m = new_msg(ctx.t);
    let mut bytes = match ctx.t.weighted(&[4, 3, 2]) {
        0 => {
            let big = ctx.t.chance(1, 40);
            m = ref_msg(ctx, types, ix, &ix.regs, true, big);
            let mut b = m.w.bytes.clone();
            corrupt(ctx.t, &mut b, &m.marks, None, ctx.stats);
            b
        }
        1 => {
            let n = ctx.t.idx(40);
            let alpha = ctx.t.choose(4);
            (0..n)
                .map(|_| match alpha {
                    0 => ctx.t.byte(),
                    1 => [0, 0xff, 0x80, 0xc4, 0xc1, 0xbf, 0x7f, 0x40][ctx.t.idx(8)],
                    2 => [0xff, 0xfe, 0xff, 0xff][ctx.t.idx(4)],
                    _ => [0u8, 0, 0, 1][ctx.t.idx(4)],
                })
                .collect()
        }
        _ => {
            let n = ctx.t.idx(200);
            fill(ctx.t.choose(1 << 30), n)
        }
    };
    ctx.stats.inc("hostile_buffers");
    // a buffer need not end on an octet boundary
    let mut d = AperCodecData::from_slice(&bytes);
    let mut extra = 0;
    if ctx.t.chance(1, 3) {
        extra = 1 + ctx.t.idx(7);
        let v = ctx.t.byte();
        let b: Vec<bool> = (0..extra).map(|i| v >> i & 1 == 1).collect();
        prefix(&mut d, &b);
        ctx.stats.inc("fault_partial_octet");
    }
    ctx.hash(&bytes);
    let total = bytes.len() * 8 + extra;
    if ctx.tracing {
        ctx.log(|| format!("bytes {} + {} bits", hex(&bytes), extra));
    }
    let steps = 1 + ctx.t.choose(6);
    for _ in 0..steps {
        let (c, aimed) = if !m.parts.is_empty() && ctx.t.chance(2, 3) {
            let p = &m.parts[ctx.t.idx(m.parts.len())];
            (p.codec.clone(), Some(p.start))
        } else {
            (pick(ctx.t, ix, &ix.regs), None)
        };
        let off = match ctx.t.choose(4) {
            0 => aimed.unwrap_or(0),
            1 => ctx.t.idx(total + 1),
            2 => total - ctx.t.idx(total.min(17) + 1),
            _ => ctx.t.idx(9),
        }
        .min(total);
        if !ctx.t.chance(1, 5) {
            d.seek(off);
        }
        let r = types.decode(&c, &mut d);
        let peak = LAST_PEAK.with(|p| p.replace(0));
        ctx.log(|| format!("decode {} at bit {} -> {} ({} bytes peak)", types.name(&c), off, r.short(), peak));
        match r {
            DecOut::Panic(e) => {
                return viol("panic", format!("decoding {} at bit {} of {} (+{} bits) panics: {}", tdesc(types, &c), off, hex(&bytes), extra, e))
            }
            DecOut::Ok(_) => {
                ctx.stats.inc("accepted");
            }
            DecOut::Err(_) => {
                ctx.stats.inc("rejected");
                ctx.nontrivial = true;
            }
        }
        let limit = 96 * 1024 + 8192 * (bytes.len() + 1);
        if peak > limit && !matches!(c, Codec::Prim(Prim::Len, _)) {
            return viol("memory", format!("decoding {} at bit {} of {} octets needed {} bytes of memory", tdesc(types, &c), off, bytes.len(), peak));
        }
    }
    bytes.clear();
    Ok(())
}

thread_local! {
    /// Peak memory of the last decode itself, set by the node.
    pub static LAST_PEAK: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

pub fn run(prop: &str, ctx: &mut Ctx, types: &Types, ix: &Index) -> Res {
    match prop {
        "C08" => stream(ctx, types, ix),
        "C09" => sending(ctx, types, ix, &ix.regs),
        "C10" => network(ctx, types, ix, Mode::Exact),
        "C11" => violating(ctx, types, ix),
        "C12" => network(ctx, types, ix, Mode::Corrupt),
        "C13" => hostile(ctx, types, ix),
        "C14" => network(ctx, types, ix, Mode::Cut),
        "C15" => histories(ctx, types, ix),
        "C16" => {
            if ctx.t.chance(1, 3) && !ix.open.is_empty() {
                let ixo = Index { regs: ix.open.clone(), open: ix.open.clone(), ext: vec![], prims: false };
                sending(ctx, types, &ixo, &ixo.regs)
            } else {
                network(ctx, types, ix, Mode::Frames)
            }
        }
        "C17" => network(ctx, types, ix, Mode::Evolved),
        "C18" => match ctx.t.choose(8) {
            0..=3 => sending(ctx, types, ix, &ix.regs),
            4..=6 => network(ctx, types, ix, Mode::Spec),
            _ => violating(ctx, types, ix),
        },
        _ => viol("harness", format!("unknown property {}", prop)),
    }
}
