//! Fields at and beyond their maximum length, and methods that cannot be written.
use crate::chaos::{Schedule, Sink};
use crate::ensure;
use crate::exec::run;
use crate::gen::{self, Call, Mode, Spec};
use crate::report::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::view::{EntryView, FileView, Str};
use crate::zipref::{self, Extra, Synth, SynthEntry};
use async_zip::base::read::mem::ZipFileReader;
use async_zip::base::write::ZipFileWriter;
use async_zip::ZipEntryBuilder;
use futures_lite::io::{AsyncReadExt, AsyncWrite};

pub const PROP: Prop = Prop {
    id: "C15",
    level: "exploration",
    rule: "case = 1..5 entries in one archive, each with a name, comment, alternative or carried-along extra fields whose length is drawn around the field limits (65525..65537, 65536+n, 131072+n, up to 16 MiB) or ordinary, or with a method that cannot be written, through every writing call and ZIP64 mode, refused and accepted entries in any order; then the archive comment, drawn likewise, and close; oracle: an arithmetic model says must-refuse, must-accept or either; whatever was accepted is read back and compared with what was given byte by byte, extra fields and layout through the independent parser; non-trivial = a field within 16 of its limit or beyond it; distinct by (call, mode, lengths)",
    assumptions: &["where the writer's own extra fields (ZIP64 sizes, Unicode name and comment of an entry mixing encodings) push carried-along ones over the limit, refusing and accepting are both right", "the public compress() function, which cannot report an error, is outside the claim"],
    cases: |t| t.pick(80000, 3000000),
    budget: |t| t.pick(60, 1200),
    threads: 8,
    run: case_run,
    must_observe: &["refused_names", "refused_comments", "refused_texts", "refused_extras", "refused_methods", "refused_archive_comments", "accepted_at_limit", "accepted_after_refusal", "archives_read_back"],
    exhaustive: false,
};

const MAX: usize = 65535;

fn length(r: &mut Rng) -> usize {
    match r.below(24) {
        0..=5 => r.range(1, 40),
        6 | 7 => MAX,
        8 => MAX + 1,
        9 => MAX + 2,
        10..=12 => r.range(65520, 65545),
        13 => r.range(65480, 65535),
        14 => 65536 + r.below(40),
        15 => 131072 + r.below(40),
        16 => 131071,
        17 => r.range(65536, 140000),
        18 => r.range(30000, 65535),
        19 => r.range(32700, 32800),
        20 if r.chance(1, 20) => (1 << 24) + r.below(20),
        _ => r.range(1, 3000),
    }
}

/// ASCII text of exactly n bytes, or with some multi-byte characters.
fn text(r: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n);
    let step = r.range(1, 400);
    while s.len() < n {
        if n - s.len() >= 4 && s.len() % step == 0 {
            s.push(*r.pick(&['é', '中', '🎉', 'ß']));
        } else {
            s.push((b'a' + (s.len() % 26) as u8) as char);
        }
    }
    debug_assert_eq!(s.len(), n);
    s
}

fn string(r: &mut Rng, hot: bool, nonempty: bool) -> Str {
    let n = if hot { length(r) } else { r.range(nonempty as usize, 30) };
    match r.below(4) {
        0 | 1 => Str { raw: text(r, n).into_bytes(), utf8: true, alt: None },
        2 => {
            let mut v = r.bytes(n.max(1));
            v[0] |= 0x80;
            Str { raw: v, utf8: false, alt: None }
        }
        _ => {
            let k = if hot && r.chance(1, 2) { length(r) } else { r.range(1, 30) };
            let (t, a) = if r.chance(1, 2) { (n.max(1), k) } else { (k.max(1), n.max(1)) };
            let mut alt = r.bytes(a);
            alt[0] |= 0x80;
            if std::str::from_utf8(&alt).is_ok() {
                alt[0] = 0xFF;
            }
            Str { raw: text(r, t).into_bytes(), utf8: true, alt: Some(alt) }
        }
    }
}

/// Extra fields of another producer; more than one source archive when they exceed one record's field.
fn extras(r: &mut Rng, hot: bool) -> Vec<Vec<Extra>> {
    if !hot {
        return if r.chance(2, 3) { vec![] } else { vec![vec![Extra { id: 0xcafe, data: r.bytes(7) }]] };
    }
    let total = length(r).max(4);
    let mut groups = vec![];
    let mut left = total;
    while left >= 4 {
        let g = left.min(MAX);
        let mut v = vec![];
        let mut l = g;
        let pieces = r.range(1, 3);
        for k in 0..pieces {
            if l < 4 {
                break;
            }
            let n = if k + 1 == pieces { l - 4 } else { r.below(l - 3) };
            let mut data = r.bytes(n);
            let mut id = *r.pick(&[0xcafe, 0x5455, 0x7875, 0x9999, 0x6375, 0x7075]);
            if matches!(id, 0x6375 | 0x7075) {
                // of a version yet to come
                match data.first_mut() {
                    Some(v) => *v |= 2,
                    None => id = 0x9999,
                }
            }
            v.push(Extra { id, data });
            l -= 4 + n;
        }
        groups.push(v);
        left -= g;
    }
    groups
}

fn bytes_of(x: &[Extra]) -> usize {
    x.iter().map(|e| 4 + e.data.len()).sum()
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum Must {
    Refuse,
    Accept,
    Either,
}

struct Item {
    spec: Spec,
    extra: Vec<Extra>,
    groups: Vec<Vec<Extra>>,
}

impl Item {
    fn must(&self, mode: Mode) -> Must {
        let s = &self.spec;
        if s.method == 9 && !matches!(s.call, Call::WholePre | Call::StreamPre) {
            return Must::Refuse;
        }
        let foreign = bytes_of(&self.extra);
        let mut needed = foreign;
        let mut emitted = foreign;
        let plain = |x: &Str| x.utf8 && x.alt.is_none();
        let both_plain = plain(&s.name) && plain(&s.comment);
        for x in [&s.name, &s.comment] {
            if x.stored().len() > MAX {
                return Must::Refuse;
            }
            if x.utf8 && x.alt.is_some() {
                needed += 9 + x.raw.len();
            }
            if x.utf8 && !both_plain && !x.raw.is_empty() {
                emitted += 9 + x.raw.len();
            }
        }
        if needed > MAX {
            return Must::Refuse;
        }
        if s.call.streamed() && mode != Mode::Forbid {
            emitted += 28;
        }
        if emitted <= MAX {
            Must::Accept
        } else {
            Must::Either
        }
    }
    fn hot(&self) -> bool {
        let near = |n: usize| n + 16 >= MAX;
        near(self.spec.name.stored().len()) || near(self.spec.comment.stored().len()) || near(self.spec.name.raw.len() + 9) || near(self.spec.comment.raw.len() + 9) || near(bytes_of(&self.extra)) || self.spec.method == 9
    }
    fn describe(&self) -> String {
        let l = |s: &Str| format!("{}{}{}", s.raw.len(), if s.utf8 { "" } else { "r" }, s.alt.as_ref().map(|a| format!("+alt{}", a.len())).unwrap_or_default());
        format!("{:?} m{} name={} comment={} extra={}", self.spec.call, self.spec.method, l(&self.spec.name), l(&self.spec.comment), bytes_of(&self.extra))
    }
}

/// The library's own form of the given extra fields: read from archives that carry them.
fn carried(groups: &[Vec<Extra>], b: ZipEntryBuilder) -> Result<ZipEntryBuilder, String> {
    let mut fields = vec![];
    for g in groups {
        let mut e = SynthEntry::new(b"carrier", 0, b"x".to_vec(), 1);
        e.extra_central = g.clone();
        let bytes = Synth { entries: vec![e], ..Default::default() }.build().0;
        let z = run(ZipFileReader::new(bytes)).map_err(|e| format!("archive with {} bytes of extra fields cannot be opened: {e:?}", bytes_of(g)))?;
        fields.extend(z.file().entries()[0].extra_fields().to_vec());
    }
    Ok(if fields.is_empty() { b } else { b.extra_fields(fields) })
}

async fn go<W: AsyncWrite + Unpin>(mut w: ZipFileWriter<W>, items: &[Item], mode: Mode, comment: Option<String>) -> (Vec<Result<(), String>>, Result<W, String>) {
    w = match mode {
        Mode::Auto => w,
        Mode::Forbid => w.force_no_zip64(),
        Mode::Force => w.force_zip64(),
    };
    if let Some(c) = comment {
        w.comment(c);
    }
    let mut out = vec![];
    for i in items {
        let e = match carried(&i.groups, i.spec.builder()) {
            Ok(b) => b.build(),
            Err(e) => return (vec![], Err(e)),
        };
        out.push(gen::write_entry(&mut w, e, &i.spec).await.map_err(|e| format!("{e:?}")));
    }
    (out, w.close().await.map_err(|e| format!("{e:?}")))
}

fn case_run(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    let mode = *r.pick(&[Mode::Auto, Mode::Auto, Mode::Forbid, Mode::Force]);
    let n = r.range(1, 5);
    let mut items = vec![];
    for i in 0..n {
        let hot = r.below(10);
        let method = if r.chance(1, 12) { 9 } else { *r.pick(&[0u16, 0, 8, 8, 12, 93]) };
        let call = *r.pick(&[Call::Whole, Call::Stream, Call::WholePre, Call::StreamPre]);
        let groups = extras(&mut r, matches!(hot, 4 | 5));
        let len = r.below(400);
        let spec = Spec {
            name: string(&mut r, matches!(hot, 0 | 1 | 6), true),
            comment: string(&mut r, matches!(hot, 2 | 3 | 6), false),
            method,
            level: None,
            call,
            content: r.bytes(len),
            date: r.u16(),
            time: r.u16(),
            iattr: i as u16,
            eattr: r.u32(),
            perm: None,
            chunks: vec![r.range(1, 200)],
            flush_every: 0,
            foreign: true,
            stale: None,
        };
        items.push(Item { spec, extra: groups.concat(), groups });
    }
    let comment = match r.below(4) {
        0 => None,
        1 => Some(r.range(0, 60)),
        _ => Some(if r.chance(1, 3) { length(&mut r) } else { r.range(0, 400) }),
    }
    .map(|n| text(&mut r, n));
    let clen = comment.as_ref().map_or(0, |c| c.len());
    let what = format!("{mode:?} comment={clen} [{}]", items.iter().map(|i| i.describe()).collect::<Vec<_>>().join("; "));
    case.say(|| what.clone());

    let (sink, probe) = Sink::new(if r.chance(1, 2) { Schedule::smooth() } else { Schedule { max_chunk: r.range(500, 70000), vary: true, pending: 60, wake_now: 128, burst: 2 } }, r.fork());
    let (outcomes, close) = run(go(ZipFileWriter::new(sink), &items, mode, comment.clone()));
    if outcomes.len() != items.len() {
        return Err(close.err().unwrap_or_default());
    }
    let mut accepted = vec![];
    let mut refused = false;
    for (i, (it, o)) in items.iter().zip(&outcomes).enumerate() {
        let must = it.must(mode);
        case.eval();
        if it.hot() {
            case.distinct(format!("{mode:?}{}", it.describe()).as_bytes());
        }
        match o {
            Ok(()) => {
                ensure!(must != Must::Refuse, "entry {i} ({}) cannot be represented but was accepted; {what}", it.describe());
                if it.hot() {
                    case.count("accepted_at_limit", 1);
                }
                if refused {
                    case.count("accepted_after_refusal", 1);
                }
                accepted.push(it);
            }
            Err(e) => {
                ensure!(must != Must::Accept, "entry {i} ({}) fits but was refused: {e}; {what}", it.describe());
                refused = true;
                let s = &it.spec;
                case.count(
                    if s.method == 9 && matches!(s.call, Call::Whole | Call::Stream) {
                        "refused_methods"
                    } else if s.name.stored().len() > MAX {
                        "refused_names"
                    } else if s.comment.stored().len() > MAX {
                        "refused_comments"
                    } else if bytes_of(&it.extra) > MAX {
                        "refused_extras"
                    } else if must == Must::Either {
                        "refused_either"
                    } else {
                        "refused_texts"
                    },
                    1,
                );
            }
        }
    }
    case.sample(|| what.clone());
    if clen > MAX {
        case.eval();
        case.count("refused_archive_comments", 1);
        ensure!(close.is_err(), "an archive comment of {clen} bytes was accepted; {what}");
        return Ok(());
    }
    close.map_err(|e| format!("closing failed: {e}; {what}"))?;
    case.eval();
    let bytes = probe.bytes();
    let z = run(ZipFileReader::new(bytes.clone())).map_err(|e| format!("the archive cannot be opened: {e:?}; {what}"))?;
    case.count("archives_read_back", 1);
    let f = FileView::of(z.file());
    ensure!(f.comment.raw == comment.clone().unwrap_or_default().as_bytes(), "the archive comment of {clen} bytes reads back with {}; {what}", f.comment.raw.len());
    ensure!(f.entries.len() == accepted.len(), "{} entries were accepted, {} are listed; {what}", accepted.len(), f.entries.len());
    let a = zipref::parse(&bytes, clen).map_err(|e| format!("independent parser: {e}; {what}"))?;
    zipref::check_layout(&bytes, &a, true).map_err(|e| format!("{e}; {what}"))?;
    for (k, it) in accepted.iter().enumerate() {
        let w = format!("accepted entry {k} ({})", it.describe());
        let e: &EntryView = &f.entries[k];
        let want = it.spec.expect(e.csize);
        for (got, want, field) in [(&e.name, &want.name, "name"), (&e.comment, &want.comment, "comment")] {
            ensure!(super::c02::norm(got) == super::c02::norm(want), "{w}: {field} of {} bytes reads back as {} bytes ({} and {}); {what}", want.raw.len(), got.raw.len(), got.short(), want.short());
        }
        super::c02::same_meta(e, &want, &w)?;
        let got: Vec<Extra> = a.centrals[k].extra.iter().filter(|x| !super::c02::interpreted(x)).cloned().collect();
        ensure!(got == it.extra, "{w}: {} bytes of extra fields were given, {} are recorded; {what}", bytes_of(&it.extra), bytes_of(&got));
        let mut v = vec![];
        run(async {
            let mut rd = z.reader_without_entry(k).await.map_err(|e| format!("{e:?}"))?;
            rd.read_to_end(&mut v).await.map_err(|e| format!("{e:?}"))
        })
        .map_err(|e| format!("{w}: content unreadable: {e}; {what}"))?;
        ensure!(v == it.spec.content, "{w}: content differs; {what}");
    }
    Ok(())
}
