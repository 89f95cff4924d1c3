//! Every stored timestamp, the builder and the conversions, against calendar arithmetic.
use crate::exec::run;
use crate::gen::{self, Call, Spec};
use crate::report::{Case, Prop, Tier, Verdict};
use crate::rng::Rng;
use crate::view::{dos, Str};
use crate::zipref::{self, Synth, SynthEntry};
use crate::ensure;
use async_zip::base::read::{mem, stream};
use async_zip::base::write::ZipFileWriter;
use async_zip::error::ZipError;
use async_zip::{ZipDateTime, ZipDateTimeBuilder, ZipEntryBuilder};
use chrono::{DateTime, Datelike, LocalResult, TimeZone, Timelike, Utc};

pub const PROP: Prop = Prop {
    id: "C19",
    level: "exploration",
    rule: "cases 0..511: all 65536 stored dates and all 65536 stored times, read from a synthesised archive, rewritten through every writing call from the entry description read, and read again by random access and forward (raw header fields by the independent parser); cases 512..2559: random builder histories, starting fresh or from any timestamp, against a model of six components, and UTC times from 1980 to 2107 (all month ends, leap days, random instants with fractions) converted there and back; then one case per date: all 65536 times of that date through builder, accessors and chrono (all 2^32 timestamps; chrono for all in the thorough tier, for a sixteenth of the times in the quick one); oracle: own calendar arithmetic; non-trivial = every timestamp; distinct by timestamp block or builder history",
    assumptions: &["builder arguments are within the ranges the format can hold", "fractions of a second are not part of the format"],
    cases: |t| t.pick(2560 + 65536, 2560 + 65536),
    budget: |t| t.pick(100, 3000),
    threads: 8,
    run: case_run,
    must_observe: &["stored_timestamps", "rewritten_timestamps", "forward_timestamps", "builder_steps", "chrono_round_trips", "valid_timestamps", "invalid_timestamps", "enumerated_timestamps"],
    exhaustive: false,
};

fn leap(y: i32) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
fn days(y: i32, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 if leap(y) => 29,
        2 => 28,
        _ => 0,
    }
}
fn valid(c: (i32, u32, u32, u32, u32, u32)) -> bool {
    c.2 >= 1 && c.2 <= days(c.0, c.1) && c.3 < 24 && c.4 < 60 && c.5 < 60
}
/// Seconds since 1970 by counting days.
fn epoch(c: (i32, u32, u32, u32, u32, u32)) -> i64 {
    let y = c.0 as i64 - 1;
    let mut d = y * 365 + y / 4 - y / 100 + y / 400 - 719162;
    for m in 1..c.1 {
        d += days(c.0, m) as i64;
    }
    d += c.2 as i64 - 1;
    d * 86400 + c.3 as i64 * 3600 + c.4 as i64 * 60 + c.5 as i64
}

fn components(t: &ZipDateTime) -> (i32, u32, u32, u32, u32, u32) {
    (t.year(), t.month(), t.day(), t.hour(), t.minute(), t.second())
}

fn to_chrono(t: &ZipDateTime, c: (i32, u32, u32, u32, u32, u32)) -> Verdict {
    match t.as_chrono() {
        LocalResult::Single(d) => {
            ensure!(valid(c), "{c:?} is no valid time but converts to {d}");
            ensure!(d.timestamp() == epoch(c) && d.timestamp_subsec_nanos() == 0, "{c:?} converts to {d}");
            let back = ZipDateTime::from_chrono(&d);
            ensure!(back == *t, "{c:?} converts to {d} and back to {:?}", components(&back));
        }
        LocalResult::None => ensure!(!valid(c), "{c:?} is valid but does not convert"),
        x => return Err(format!("{c:?} converts to {x:?}")),
    }
    Ok(())
}

fn block(case: &mut Case, r: &mut Rng) -> Verdict {
    let stamps: Vec<(u16, u16)> = (0..256u16)
        .map(|k| {
            let v = ((case.idx as u16 & 0xFF) << 8) | k;
            let (x, y) = (r.u16(), r.u16());
            let o = *r.pick(&[0, 0xFFFF, 0x0021, 0xBF7D, x, y]);
            if case.idx < 256 {
                (v, o)
            } else {
                (o, v)
            }
        })
        .collect();
    let mut sy = Synth::default();
    for (d, t) in &stamps {
        let mut e = SynthEntry::new(b"t", 0, vec![], 1);
        e.date = *d;
        e.time = *t;
        sy.entries.push(e);
    }
    let z = run(mem::ZipFileReader::new(sy.build().0)).map_err(|e| format!("cannot be opened: {e:?}"))?;
    let mut w = ZipFileWriter::new(Vec::<u8>::new());
    if r.chance(1, 2) {
        w = w.force_no_zip64();
    }
    for (i, (d, t)) in stamps.iter().enumerate() {
        let e = &z.file().entries()[i];
        let c = dos(*d, *t);
        ensure!(components(e.last_modification_date()) == c, "stored timestamp {d:#06x}/{t:#06x} is reported as {:?}, is {c:?}", components(e.last_modification_date()));
        to_chrono(e.last_modification_date(), c)?;
        case.count(if valid(c) { "valid_timestamps" } else { "invalid_timestamps" }, 1);
        case.count("stored_timestamps", 1);
        case.eval();
        let s = Spec {
            name: Str::text("t"),
            comment: Str::text(""),
            method: *r.pick(&[0u16, 8]),
            level: None,
            call: *r.pick(&[Call::Whole, Call::WholePre, Call::Stream, Call::StreamPre]),
            content: vec![1, 2, 3],
            date: *d,
            time: *t,
            iattr: 0,
            eattr: 0,
            perm: None,
            chunks: vec![],
            flush_every: 0,
            foreign: true,
            stale: None,
        };
        let s = if s.call.streamed() { Spec { method: 8, ..s } } else { s };
        // From the description read, or set by the builder.
        let b = if r.chance(1, 2) { ZipEntryBuilder::from((**e).clone()).compression(gen::method(s.method)) } else { s.builder() };
        run(gen::write_entry(&mut w, b.build(), &s)).map_err(|e| format!("writing failed: {e:?}"))?;
    }
    let bytes = run(w.close()).map_err(|e| format!("closing failed: {e:?}"))?;
    let a = zipref::parse(&bytes, 0)?;
    let z = run(mem::ZipFileReader::new(bytes.clone())).map_err(|e| format!("rewritten archive cannot be opened: {e:?}"))?;
    ensure!(z.file().entries().len() == 256 && a.centrals.len() == 256, "entries were lost");
    for (i, (d, t)) in stamps.iter().enumerate() {
        let c = dos(*d, *t);
        let g = components(z.file().entries()[i].last_modification_date());
        ensure!(g == c, "timestamp {c:?} reads back as {g:?}");
        ensure!((a.centrals[i].date, a.centrals[i].time) == (*d, *t), "the central record holds {:#06x}/{:#06x} for {d:#06x}/{t:#06x}", a.centrals[i].date, a.centrals[i].time);
        ensure!((a.locals[i].date, a.locals[i].time) == (*d, *t), "the local header holds {:#06x}/{:#06x} for {d:#06x}/{t:#06x}", a.locals[i].date, a.locals[i].time);
        case.count("rewritten_timestamps", 1);
        case.eval();
    }
    let mut seen = 0;
    run(async {
        let mut z = stream::ZipFileReader::new(futures_lite::io::Cursor::new(&bytes[..]));
        while let Some(mut rd) = z.next_with_entry().await.map_err(|e: ZipError| format!("forward: {e:?}"))? {
            let (d, t) = stamps[seen];
            let g = components(rd.reader_mut().entry().last_modification_date());
            ensure!(g == dos(d, t), "forward reading reports {g:?} for {:?}", dos(d, t));
            seen += 1;
            z = rd.skip().await.map_err(|e| format!("forward: {e:?}"))?;
        }
        Ok(())
    })?;
    ensure!(seen == 256, "forward reading yields {seen} of 256 entries");
    case.count("forward_timestamps", seen as u64);
    case.distinct(&case.idx.to_le_bytes());
    Ok(())
}

fn builder(case: &mut Case, r: &mut Rng) -> Verdict {
    for _ in 0..60 {
        let mut m = (1980, 0, 0, 0, 0, 0);
        let mut b = ZipDateTimeBuilder::new();
        let mut steps = vec![];
        if r.chance(1, 2) {
            // From a timestamp that was stored.
            let (d, t) = (r.u16(), r.u16());
            let mut e = SynthEntry::new(b"t", 0, vec![], 1);
            e.date = d;
            e.time = t;
            let z = run(mem::ZipFileReader::new(Synth { entries: vec![e], ..Default::default() }.build().0)).map_err(|e| format!("cannot be opened: {e:?}"))?;
            b = ZipDateTimeBuilder::from(*z.file().entries()[0].last_modification_date());
            m = dos(d, t);
            steps.push(format!("from {m:?}"));
        }
        for _ in 0..r.range(1, 10) {
            match r.below(7) {
                0 => {
                    m.0 = 1980 + r.below(128) as i32;
                    b = b.year(m.0);
                    steps.push(format!("year {}", m.0));
                }
                1 => {
                    m.1 = r.below(16) as u32;
                    b = b.month(m.1);
                    steps.push(format!("month {}", m.1));
                }
                2 => {
                    m.2 = r.below(32) as u32;
                    b = b.day(m.2);
                    steps.push(format!("day {}", m.2));
                }
                3 => {
                    m.3 = r.below(32) as u32;
                    b = b.hour(m.3);
                    steps.push(format!("hour {}", m.3));
                }
                4 => {
                    m.4 = r.below(64) as u32;
                    b = b.minute(m.4);
                    steps.push(format!("minute {}", m.4));
                }
                5 => {
                    let s = r.below(64) as u32;
                    m.5 = s & !1;
                    b = b.second(s);
                    steps.push(format!("second {s}"));
                }
                _ => {
                    // Through a finished timestamp.
                    let t: ZipDateTime = b.build();
                    ensure!(components(&t) == m, "after {steps:?} the timestamp is {:?}, should be {m:?}", components(&t));
                    b = ZipDateTimeBuilder::from(t);
                    steps.push("build".into());
                }
            }
            case.count("builder_steps", 1);
        }
        let t = ZipDateTime::from(b);
        ensure!(components(&t) == m, "after {steps:?} the timestamp is {:?}, should be {m:?}", components(&t));
        to_chrono(&t, m)?;
        case.eval();
        case.distinct(steps.join(",").as_bytes());
        case.sample(|| steps.join(", "));
    }
    Ok(())
}

fn there_and_back(case: &mut Case, r: &mut Rng) -> Verdict {
    let check = |d: DateTime<Utc>| -> Verdict {
        for z in [ZipDateTime::from_chrono(&d), ZipDateTime::from(d), ZipDateTime::from(&d)] {
            let want = (d.year(), d.month(), d.day(), d.hour(), d.minute(), d.second() & !1);
            ensure!(components(&z) == want, "{d} becomes {:?}", components(&z));
            let back: [LocalResult<DateTime<Utc>>; 3] = [z.as_chrono(), (&z).into(), z.into()];
            for b in back {
                let LocalResult::Single(b) = b else { return Err(format!("{d} does not convert back: {b:?}")) };
                ensure!(b.timestamp() == d.timestamp() - d.timestamp().rem_euclid(2) && b.timestamp_subsec_nanos() == 0, "{d} comes back as {b}");
            }
        }
        Ok(())
    };
    let (lo, hi) = (epoch((1980, 1, 1, 0, 0, 0)), epoch((2107, 12, 31, 23, 59, 59)));
    for k in 0..200 {
        let s = match k {
            0 => lo,
            1 => hi,
            2 => lo + 1,
            3..=40 => {
                // around the end of a month
                let (y, m) = (1980 + r.below(128) as i32, 1 + r.below(12) as u32);
                (epoch((y, m, days(y, m), 23, 59, 59)) + r.below(4) as i64 - 1).clamp(lo, hi)
            }
            _ => lo + r.below((hi - lo + 1) as usize) as i64,
        };
        let nanos = *r.pick(&[0, 0, 1, 999_999_999, 500_000_000, 1_000_000_000, 1_999_999_999]);
        // A leap second can only be told at the end of a minute.
        let nanos = if nanos >= 1_000_000_000 && s.rem_euclid(60) != 59 { 5 } else { nanos };
        let LocalResult::Single(d) = Utc.timestamp_opt(s, nanos) else { return Err(format!("harness: {s} {nanos}")) };
        check(d)?;
        case.count("chrono_round_trips", 1);
        case.eval();
    }
    Ok(())
}

fn enumerate(case: &mut Case, date: u16) -> Verdict {
    let (y, m, d, ..) = dos(date, 0);
    // The order in which components are set must not matter.
    let base = if date % 2 == 0 { ZipDateTimeBuilder::new().year(y).month(m).day(d).build() } else { ZipDateTimeBuilder::new().day(d).month(m).year(y).build() };
    let every = case.tier == Tier::Thorough;
    let mut prev = base;
    for time in 0..=65535u16 {
        let c = dos(date, time);
        // Over the previous one, so that every component is replaced.
        let t = if time % 2 == 0 { ZipDateTimeBuilder::from(prev).hour(c.3).minute(c.4).second(c.5) } else { ZipDateTimeBuilder::from(prev).second(c.5 + 1).minute(c.4).hour(c.3) }.build();
        ensure!(components(&t) == c, "setting {c:?} over {:?} gives {:?}", components(&prev), components(&t));
        if every || (time ^ date) % 16 == 3 {
            to_chrono(&t, c)?;
        }
        prev = t;
    }
    case.count("enumerated_timestamps", 65536);
    case.eval();
    case.distinct(&case.idx.to_le_bytes());
    Ok(())
}

fn case_run(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    match case.idx {
        0..=511 => block(case, &mut r),
        512..=2559 => {
            builder(case, &mut r)?;
            there_and_back(case, &mut r)
        }
        k => {
            let k = k - 2560;
            enumerate(case, k as u16)
        }
    }
}
