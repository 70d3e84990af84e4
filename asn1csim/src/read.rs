//! C07: the tokenizer and the readers it is given.

use crate::ctx::*;
use simcore::spec::*;
use std::io::{Error, ErrorKind, Read};

/// A reader that behaves as the tape says.
struct Faulty {
    data: Vec<u8>,
    pos: usize,
    plan: Vec<u64>,
    step: usize,
    fail_at: Option<(usize, ErrorKind)>,
    calls: usize,
    eintr: u64,
    short: u64,
}

impl Read for Faulty {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        let p = self.plan.get(self.step % self.plan.len().max(1)).copied().unwrap_or(0);
        self.step += 1;
        if p % 8 == 7 && self.calls < 100_000 {
            self.eintr += 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut end = self.data.len();
        if let Some((at, k)) = self.fail_at {
            if self.pos >= at {
                return Err(Error::new(k, "the disk is gone"));
            }
            end = at;
        }
        let mut n = b.len().min(end - self.pos);
        let want = match p % 8 {
            0 => n,
            1 => 1,
            2 => 1 + (p as usize >> 3) % 7,
            3 => 1 + (p as usize >> 3) % 64,
            _ => 1 + (p as usize >> 3) % 4096,
        };
        if want < n {
            self.short += 1;
            n = want;
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

type Tokens = Result<Vec<String>, String>;

fn tokenize(r: impl Read) -> Result<Tokens, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match asn1_compiler::tokenizer::tokenize(r) {
        Ok(v) => Ok(v.iter().map(|t| format!("{:?}", t)).collect()),
        Err(e) => Err(format!("{}", e)),
    }))
    .map_err(|p| {
        p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}

/// Debug text of a token without its position.
fn no_span(t: &str) -> String {
    let mut o = String::new();
    let mut rest = t;
    while let Some(k) = rest.find("Span {") {
        o += &rest[..k];
        let mut depth = 0;
        let mut e = rest.len();
        for (i, ch) in rest[k..].char_indices() {
            match ch {
                '{' => depth += 1,
                '}' => {
                    depth -= 1;
                    if depth == 0 {
                        e = k + i + 1;
                        break;
                    }
                }
                _ => {}
            }
        }
        rest = &rest[e..];
    }
    o + rest
}

/// The text of a token, from its Debug form.
fn text_of(t: &str) -> Option<String> {
    let k = t.rfind("text: \"")?;
    let s = &t[k + 7..];
    let e = s.rfind('"')?;
    let mut o = String::new();
    let mut it = s[..e].chars();
    while let Some(ch) = it.next() {
        if ch == '\\' {
            match it.next()? {
                'n' => o.push('\n'),
                't' => o.push('\t'),
                'r' => o.push('\r'),
                '0' => o.push('\0'),
                'u' => {
                    let rest: String = it.by_ref().take_while(|c| *c != '}').collect();
                    o.push(char::from_u32(u32::from_str_radix(rest.trim_start_matches('{'), 16).ok()?)?);
                }
                x => o.push(x),
            }
        } else {
            o.push(ch);
        }
    }
    Some(o)
}

pub fn c07(c: &mut Ctx) -> Res {
    let codec = c.t.coin();
    let modules = 1 + c.t.idx(2);
    let types = 1 + c.t.idx(8);
    let s = generate(c.t, Style { codec, modules, types });
    let l = shuffled(c.t, &s);
    let mut plain = String::new();
    for (_, t) in render(&s, &l) {
        plain += &t;
    }
    let mut text = respace(c.t, &plain);
    if c.t.coin() {
        // literals and comments with text of more than one octet per character
        let extra = [
            "str1 UTF8String ::= \"a string, with 'quotes' and é 中 😀 in it\"\n",
            "bits1 BIT STRING ::= '0101'B\n",
            "hex1 OCTET STRING ::= 'FEED'H\n",
            "neg1 INTEGER ::= -5\n",
        ];
        if !text.ends_with('\n') {
            text += "\n";
        }
        for _ in 0..1 + c.t.idx(3) {
            let x = extra[c.t.idx(extra.len())];
            plain += x;
            text += x;
            if c.t.coin() {
                text += "-- é中😀 in between\n";
            }
        }
    }
    let real = c.t.chance(1, 80) && !c.os.specs.is_empty();
    if real {
        // a file of one of the repository's own specifications
        let k = c.t.idx(c.os.specs.len());
        let f: Vec<&(String, Vec<u8>)> = c.os.specs[k].1.iter().filter(|x| x.1.len() < 150_000).collect();
        if !f.is_empty() {
            text = String::from_utf8_lossy(&f[c.t.idx(f.len())].1).into_owned();
            c.stats.inc("texts_of_the_repository");
        }
    }
    if c.t.chance(1, 5) {
        // some octet of the text comes to lie where buffers usually end
        let at = [512, 1024, 4096, 8192, 16384, 32768, 65536][c.t.idx(7)];
        let interesting: Vec<usize> = text
            .bytes()
            .enumerate()
            .filter(|x| x.1 >= 0x80 || matches!(x.1, b'\r' | b'\n' | b'-' | b'.' | b':' | b'"' | b'\'' | b'[' | b'&' | b'@'))
            .map(|x| x.0)
            .collect();
        let p = if c.t.coin() || interesting.is_empty() { c.t.idx(text.len() + 1) } else { interesting[c.t.idx(interesting.len())] + c.t.idx(3) };
        if p <= at {
            let mut pad = String::with_capacity(at);
            let kind = c.t.choose(3);
            while pad.len() + p < at {
                let left = at - p - pad.len();
                match kind {
                    1 if left % 64 != 0 || left < 64 => pad.push('\n'),
                    1 => pad += &format!("-- {}\n", "x".repeat(60)),
                    2 => pad.push(if left % 80 == 0 { '\n' } else { '\t' }),
                    _ => pad.push(' '),
                }
            }
            text.insert_str(0, &pad);
            c.stats.inc("texts_moved_to_a_buffer_end");
        }
    }
    let mut sound = true;
    let mut data = text.clone().into_bytes();
    if c.t.chance(1, 4) {
        // text that is not as it should be: any answer, but always the same one
        sound = false;
        for _ in 0..1 + c.t.idx(3) {
            let p = c.t.idx(data.len().max(1));
            match c.t.choose(4) {
                0 if p < data.len() => data[p] = c.t.byte(),
                1 => data.truncate(p),
                2 => data.insert(p.min(data.len()), c.t.byte()),
                _ if p < data.len() => {
                    data.remove(p);
                }
                _ => {}
            }
        }
        c.stats.inc("fault.stored_file_corrupted");
    }
    c.hash(&data);
    c.log(|| format!("text of {} octets, {}", data.len(), if sound { "sound" } else { "corrupted" }));
    let r = match tokenize(&data[..]) {
        Ok(r) => r,
        Err(p) => return viol("panic", format!("tokenize panics: {} on {:?}", p, String::from_utf8_lossy(&data))),
    };
    let valid = std::str::from_utf8(&data).is_ok();
    if !valid && r.is_ok() {
        return viol("not text", format!("{} tokens from octets that are not text", r.unwrap().len()));
    }
    match &r {
        Err(e) if sound => return viol("refused", format!("sound text is refused: {}", e)),
        Ok(v) if sound && !real => {
            // nothing is lost: the tokens hold every character that is not white space or comment
            let got: Option<Vec<String>> = v
                .iter()
                .filter(|t| !t.contains("type: Comment"))
                .map(|t| text_of(t))
                .collect();
            if let Some(g) = got {
                let squeeze = |s: &str| s.chars().filter(|x| !x.is_whitespace()).collect::<String>();
                let (a, b) = (squeeze(&g.concat()), squeeze(&plain));
                // quotes and suffixes of literals need not be part of the token
                let q = |s: &str| s.replace("'B", "").replace("'H", "").replace(['"', '\''], "");
                if q(&a) != q(&b) {
                    let (a, b): (Vec<char>, Vec<char>) = (q(&a).chars().collect(), q(&b).chars().collect());
                    let k = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                    let near = |v: &Vec<char>| v[k.saturating_sub(20).min(v.len())..(k + 40).min(v.len())].iter().collect::<String>();
                    return viol("lost", format!("the tokens are {:?}, the text is {:?}", near(&a), near(&b)));
                }
                c.stats.inc("texts_compared");
            }
        }
        _ => {}
    }
    c.stats.inc(if r.is_ok() { "texts_accepted" } else { "texts_refused" });
    let n = 4 + c.t.idx(8);
    for _ in 0..n {
        let plan: Vec<u64> = (0..1 + c.t.idx(12)).map(|_| c.t.choose(1 << 16)).collect();
        let mut d = data.clone();
        let mut fail_at = None;
        let mut bad = None;
        match c.t.choose(4) {
            0 | 1 => {}
            2 => {
                let k = [
                    ErrorKind::Other,
                    ErrorKind::UnexpectedEof,
                    ErrorKind::ConnectionReset,
                    ErrorKind::InvalidData,
                    ErrorKind::WouldBlock,
                    ErrorKind::TimedOut,
                    ErrorKind::BrokenPipe,
                    ErrorKind::PermissionDenied,
                    ErrorKind::OutOfMemory,
                ][c.t.idx(9)];
                let at = match c.t.choose(3) {
                    0 => c.t.idx(d.len() + 1),
                    1 => d.len(),
                    _ => d.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 + 1).nth(c.t.idx(4)).unwrap_or(0),
                };
                fail_at = Some((at, k));
            }
            _ => {
                let p = c.t.idx(d.len() + 1);
                let b: &[u8] = [&[0xffu8][..], &[0xc3], &[0xe4, 0xb8], &[0xf0, 0x9f, 0x98], &[0x80], &[0xc0, 0x80], &[0xed, 0xa0, 0x80]][c.t.idx(7)];
                d.splice(p..p, b.iter().copied());
                if std::str::from_utf8(&d).is_err() {
                    bad = Some(p);
                }
            }
        }
        let changed = d != data;
        let mut f = Faulty { data: d, pos: 0, plan, step: 0, fail_at, calls: 0, eintr: 0, short: 0 };
        let o = match tokenize(&mut f) {
            Ok(o) => o,
            Err(p) => return viol("panic", format!("tokenize panics: {} (reader fails: {:?}, bad text: {:?})", p, fail_at, bad)),
        };
        c.nontrivial = true;
        c.stats.inc("reads");
        c.stats.add("fault.interrupted_call", f.eintr);
        c.stats.add("fault.short_transfer", f.short);
        c.hash(&(f.calls as u64).to_le_bytes());
        c.log(|| format!("reader: plan {:?}, fails {:?}, bad text {:?}, {} calls -> {}", f.plan, fail_at, bad, f.calls, match &o { Ok(v) => format!("{} tokens", v.len()), Err(e) => e.clone() }));
        if let Some((at, k)) = fail_at {
            c.stats.inc("fault.read_fails");
            if let Ok(v) = &o {
                return viol("partial", format!("{} tokens although the reader failed with {:?} after {} of {} octets", v.len(), k, at, data.len()));
            }
            continue;
        }
        if let Some(p) = bad {
            c.stats.inc("fault.text_not_utf8");
            if let Ok(v) = &o {
                return viol("not text", format!("{} tokens although octet {} is not text", v.len(), p));
            }
            continue;
        }
        if changed {
            continue;
        }
        match (&r, &o) {
            (Ok(a), Ok(b)) if a == b => {}
            (Err(_), Err(_)) => {}
            (Ok(a), Ok(b)) => {
                let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                return viol("tokens", format!("other tokens when read in pieces: {:?} / {:?}", a.get(k), b.get(k)));
            }
            _ => return viol("tokens", format!("in one piece: {:?}; in pieces: {:?}", r.as_ref().map(|v| v.len()), o.as_ref().map(|v| v.len()))),
        }
    }
    // line ends of other platforms
    if sound && valid {
        let t = text.replace("\r\n", "\n");
        for nl in ["\r\n", "\r", "\n", "\u{b}", "\u{c}"] {
            let u = t.replace('\n', nl);
            let o = match tokenize(u.as_bytes()) {
                Ok(o) => o,
                Err(p) => return viol("panic", format!("tokenize panics with {:?} as line end: {}", nl, p)),
            };
            c.stats.inc("line_ends_tried");
            // comments keep or lose their line end; they are no part of the grammar
            let clean = |v: &Vec<String>| -> Vec<String> { v.iter().filter(|t| !t.contains("type: Comment")).map(|t| no_span(t)).collect() };
            match (&r, &o) {
                (Ok(a), Ok(b)) => {
                    let (a, b) = (clean(a), clean(b));
                    if a != b {
                        let k = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                        return viol("line ends", format!("other tokens with {:?} as line end: {:?} / {:?}", nl, a.get(k), b.get(k)));
                    }
                }
                (_, Err(e)) => return viol("line ends", format!("refused with {:?} as line end: {}", nl, e)),
                _ => {}
            }
        }
    }
    Ok(())
}
