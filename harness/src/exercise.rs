//! Use everything a parsed value offers.

use crate::model::{diff, V};
use crate::obs;
use perf_event_data::*;
use std::fmt::{self, Debug, Write};

struct Sink(usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 = self.0.wrapping_add(s.len());
        Ok(())
    }
}

pub fn dbg(x: &dyn Debug, pretty: bool) -> Result<usize, String> {
    let mut s = Sink(0);
    let r = if pretty { write!(s, "{x:#?}") } else { write!(s, "{x:?}") };
    r.map_err(|_| "Debug formatting reported an error".to_string())?;
    Ok(s.0)
}

fn group(g: &ReadGroup) -> Result<(), String> {
    let n = g.len();
    let mut k = 0;
    for e in g.entries() {
        let _ = (e.value(), e.id(), e.lost());
        if let Some(id) = e.id() {
            let _ = g.get_by_id(id);
        }
        k += 1;
        if k > 64 {
            break;
        }
    }
    let _ = (g.get(0), g.get(n), g.get(n.wrapping_sub(1)), g.get(usize::MAX), g.get_by_id(0), g.is_empty());
    let mut it = g.entries();
    while it.next_back().is_some() && it.next().is_some() {}
    let _ = (it.len(), it.size_hint());
    let o = g.clone().into_owned();
    let _ = obs::group(&o);
    if let Ok(v) = ReadValue::try_from(g.clone()) {
        let back = ReadGroup::from(v.clone());
        let _ = (obs::value(&v), obs::group(&back));
    }
    if let Some(e) = g.get(n / 2) {
        let v = ReadValue::from_group_and_entry(g, &e);
        let _ = obs::value(&v);
        dbg(&e, false)?;
        dbg(&v, false)?;
    }
    if n < 50 {
        dbg(g, true)?;
    }
    Ok(())
}

/// Returns the observation; complains if a clone differs.
pub fn record(r: &Record, small: bool) -> Result<V, String> {
    let t = obs::record(r);
    let c = r.clone();
    if let Some(d) = diff(&t, &obs::record(&c)) {
        return Err(format!("a clone differs at {d}"));
    }
    dbg(&c, false)?;
    if small {
        dbg(r, true)?;
    }
    match c {
        Record::Mmap(x) => drop(x.into_owned()),
        Record::Mmap2(x) => {
            drop(x.to_mmap());
            let o = x.clone().into_owned();
            drop(o.into_mmap());
            drop(Mmap::from(x));
        }
        Record::Comm(x) => drop(x.into_owned()),
        Record::CGroup(x) => drop(x.into_owned()),
        Record::KSymbol(x) => drop(x.into_owned()),
        Record::TextPoke(x) => drop(x.to_owned()),
        Record::Read(x) => {
            let g = ReadGroup::from(x.values.clone());
            group(&g)?;
        }
        Record::Sample(s) => {
            let id = SampleId::from_sample(&s);
            let _ = obs::sid(&id);
            dbg(&id, false)?;
            if let Some(g) = s.values() {
                group(g)?;
            }
            for b in s.lbr().unwrap_or(&[]).iter().take(8) {
                dbg(b, false)?;
            }
            if let Some(d) = s.data_src() {
                dbg(&d, true)?;
            }
            drop(SampleId::from(*s));
        }
        other => drop(other),
    }
    Ok(t)
}
