//! C12: counter values and groups.

use super::Prop;
use crate::genrec::{self, Size};
use crate::model::*;
use crate::known;
use crate::obs;
use crate::run::*;
use crate::source::*;
use perf_event_data::parse::Parser;
use perf_event_data::*;
use std::collections::VecDeque;

pub const C12: Prop = Prop {
    id: "C12",
    case,
    quick: 7_500_000,
    thorough: 160_000_000,
    rule: "a counter group (0-2700 entries, duplicate ids included, rarely 65536-72500) or single value under a random read format, parsed bare, from \
           a READ record or from a sample; a random sequence of iterator operations (next, next_back, nth, nth_back, len, \
           size_hint, clone, count, last, fold, rev) checked step by step against a deque; access by index and id, conversions \
           and ownership compared with the model. Non-trivial: at least one entry.",
};

fn ent(m: &ReadM, i: usize, fmt: u64) -> V {
    m.entries.get(i).map_or(V::N, |c| ReadM::entry_tree(c, fmt))
}
fn eo(e: Option<GroupEntry>) -> V {
    e.map_or(V::N, |e| obs::entry(&e))
}

/// An index beyond the group.
fn far(g: &mut crate::gen::G, n: usize) -> usize {
    if g.pct(30) {
        usize::MAX - g.below(2)
    } else {
        let i = g.below(n + 1) as u64;
        genrec::aliased(g, i) as usize
    }
}

fn views(cx: &mut Cx, m: &ReadM, fmt: u64, g: &ReadGroup) -> R {
    let n = m.entries.len();
    ensure!(g.len() == n, "len() is {}, {n} entries encoded", g.len());
    ensure!(g.is_empty() == (n == 0), "is_empty() is {} with {n} entries", g.is_empty());
    same("group", &m.group_tree(fmt), &obs::group(g))?;
    for _ in 0..4 {
        let i = match cx.g.weighted(&[5, 3, 1, 1]) {
            0 => cx.g.below(n + 1),
            1 => n.wrapping_sub(cx.g.below(3)),
            2 => n + cx.g.below(4),
            _ => far(&mut cx.g, n),
        };
        same(&format!("get({i}) of {n}"), &ent(m, i, fmt), &eo(g.get(i)))?;
    }
    for _ in 0..3 {
        let id = if n > 0 && cx.g.pct(70) {
            let i = cx.g.below(n);
            match cx.g.weighted(&[6, 1, 1, 1, 1]) {
                0 => m.entries[i].id,
                1 => m.entries[i].value,
                2 => m.entries[i].lost,
                3 => m.entries[i].id.wrapping_add(1),
                _ => m.entries[i].id ^ (1 << cx.g.below(64)),
            }
        } else {
            cx.g.u64()
        };
        let want: Vec<V> = if fmt & rf::ID != 0 {
            m.entries.iter().filter(|c| c.id == id).map(|c| ReadM::entry_tree(c, fmt)).collect()
        } else {
            vec![]
        };
        let got = eo(g.get_by_id(id));
        if want.is_empty() {
            same(&format!("get_by_id({id:#x}), which is not in the group"), &V::N, &got)?;
        } else {
            ensure!(want.contains(&got), "get_by_id({id:#x}) returned {got:?}, encoded {:?}", want[0]);
        }
    }
    // iterator history
    let mut its: Vec<(GroupIter, VecDeque<usize>)> = vec![(g.entries(), (0..n).collect())];
    let steps = cx.g.range(1, 14);
    let small = n <= 40;
    for _ in 0..steps {
        let k = cx.g.below(its.len());
        let op = cx.g.weighted(&[6, 6, 3, 3, 3, 2, 1, 1, 1, 1, 1]);
        let left = its[k].1.len();
        let (it, q) = &mut its[k];
        let pick = |q: Option<usize>| q.map_or(V::N, |i| ent(m, i, fmt));
        match op {
            0 => same("next()", &pick(q.pop_front()), &eo(it.next()))?,
            1 => same("next_back()", &pick(q.pop_back()), &eo(it.next_back()))?,
            2 | 3 => {
                let a = match cx.g.weighted(&[5, 2, 1]) {
                    0 => cx.g.below(4),
                    1 => cx.g.below(left + 2),
                    _ => far(&mut cx.g, left),
                };
                if op == 2 {
                    q.drain(..a.min(left));
                    same(&format!("nth({a}) with {left} left"), &pick(q.pop_front()), &eo(it.nth(a)))?;
                } else {
                    q.truncate(left - a.min(left));
                    same(&format!("nth_back({a}) with {left} left"), &pick(q.pop_back()), &eo(it.nth_back(a)))?;
                }
            }
            4 => {
                ensure!(it.len() == left, "iterator len() is {}, {left} entries left", it.len());
                ensure!(it.size_hint() == (left, Some(left)), "size_hint() is {:?}, {left} entries left", it.size_hint());
            }
            5 => {
                let c = (it.clone(), q.clone());
                if its.len() < 4 {
                    its.push(c)
                }
            }
            6 => ensure!(it.clone().count() == left, "count() is {}, {left} entries left", it.clone().count()),
            7 => same("last()", &pick(q.back().copied()), &eo(it.clone().last()))?,
            8 if small => {
                let got: Vec<V> = it.clone().rev().map(|e| obs::entry(&e)).collect();
                let want: Vec<V> = q.iter().rev().map(|i| ent(m, *i, fmt)).collect();
                same("rev()", &V::L(want), &V::L(got))?;
            }
            9 if small => {
                let got = it.clone().fold(vec![], |mut a, e| {
                    a.push(obs::entry(&e));
                    a
                });
                let want: Vec<V> = q.iter().map(|i| ent(m, *i, fmt)).collect();
                same("fold()", &V::L(want), &V::L(got))?;
            }
            _ => {
                let s = cx.g.range(1, 3);
                let got: Vec<V> = it.clone().step_by(s).take(20).map(|e| obs::entry(&e)).collect();
                let want: Vec<V> = q.iter().step_by(s).take(20).map(|i| ent(m, *i, fmt)).collect();
                same(&format!("step_by({s})"), &V::L(want), &V::L(got))?;
            }
        }
    }
    // an exhausted iterator stays exhausted
    if small {
        let (it, q) = &mut its[0];
        for i in q.drain(..) {
            same("draining next()", &ent(m, i, fmt), &eo(it.next()))?;
        }
        ensure!(it.next().is_none() && it.next_back().is_none() && it.next().is_none() && it.len() == 0, "an exhausted iterator yields entries");
    }
    // conversions
    let o = g.clone().into_owned();
    same("into_owned()", &m.group_tree(fmt), &obs::group(&o))?;
    match ReadValue::try_from(g.clone()) {
        Ok(v) => {
            ensure!(n == 1, "a group of {n} entries converts to a single value");
            same("value from group", &m.value_tree(fmt), &obs::value(&v))?;
            same("value from group and back", &m.group_tree(fmt), &obs::group(&ReadGroup::from(v)))?;
        }
        Err(e) => {
            ensure!(n != 1, "a group of one entry does not convert to a single value: {e}");
            ensure!(!e.to_string().is_empty(), "conversion error prints as nothing");
        }
    }
    if n > 0 {
        let i = cx.g.below(n);
        let e = match g.get(i) {
            Some(e) => e,
            None => bail!("get({i}) of {n} returned nothing"),
        };
        let v = ReadValue::from_group_and_entry(g, &e);
        same(&format!("entry {i} as a value"), &m.value_tree_of(&m.entries[i], fmt), &obs::value(&v))?;
        let back = ReadGroup::from(v.clone());
        let one = ReadM { time_enabled: m.time_enabled, time_running: m.time_running, entries: vec![m.entries[i].clone()] };
        same(&format!("entry {i} as a group"), &one.group_tree(fmt), &obs::group(&back))?;
        ensure!(back.len() == 1, "a value's group reports {} entries", back.len());
        match ReadValue::try_from(back) {
            Ok(w) => same(&format!("entry {i} to value to group to value"), &obs::value(&v), &obs::value(&w))?,
            Err(e) => bail!("the group made of one value does not convert back: {e}"),
        }
    }
    Ok(())
}

fn single(cx: &mut Cx, m: &ReadM, fmt: u64, v: &ReadValue) -> R {
    same("value", &m.value_tree(fmt), &obs::value(v))?;
    same("cloned value", &m.value_tree(fmt), &obs::value(&v.clone()))?;
    let g = ReadGroup::from(v.clone());
    same("group from value", &m.group_tree(fmt), &obs::group(&g))?;
    views(cx, m, fmt, &g)
}

/// A group with more entries than fit in 16 bits; a record cannot hold it, a
/// buffer read from a counter can.
fn huge(cx: &mut Cx) -> R {
    let c = Cfg { read_format: cx.g.upto(rf::ALL) | rf::GROUP, ..Default::default() };
    let fmt = c.read_format;
    let n = (1 << 16) + cx.g.below(70) * cx.g.pick(&[1, 100]);
    let k = cx.g.u64() | 1;
    let e = AnyEndian::pick(&mut cx.g);
    let at = |i: usize| Counter { value: (i as u64).wrapping_mul(k), id: i as u64 ^ 5, lost: !(i as u64) };
    let v = |i: usize| if i < n { ReadM::entry_tree(&at(i), fmt) } else { V::N };
    let mut en = Enc::new(e.big());
    en.u64(n as u64);
    if fmt & rf::ENABLED != 0 {
        en.u64(1)
    }
    if fmt & rf::RUNNING != 0 {
        en.u64(2)
    }
    for i in 0..n {
        let x = at(i);
        en.u64(x.value);
        if fmt & rf::ID != 0 {
            en.u64(x.id)
        }
        if fmt & rf::LOST != 0 {
            en.u64(x.lost)
        }
    }
    en.u8(0x77);
    let data = en.out;
    let Some(buf) = known::place(e, &data, 0, |b| drop(dec_read(&mut Rd { b, big: e.big() }, &c))) else { return masked(cx) };
    cx.cfg_fp(&c);
    cx.fpn(n as u64 ^ k);
    cx.nontrivial = true;
    cx.label("more than 65535 entries");
    let plan = if cx.g.pct(60) { Plan::Slice } else { Plan::gen_split(&mut cx.g, data.len()) };
    cx.say(|| format!("read_format {fmt:#x}, {n} entries, {e:?} via {}", plan.label()));
    with_source!(&plan, buf.get(), None, b => {
        let mut p = Parser::new(b, obs::config(&c, e));
        let g: ReadGroup = p.parse().map_err(|x| format!("a group of {n} does not parse: {}", err_text(&x)))?;
        ensure!(g.len() == n && g.entries().len() == n && g.entries().count() == n, "len() is {}, {n} entries encoded", g.len());
        let t = (g.time_enabled(), g.time_running());
        let w = ((fmt & rf::ENABLED != 0).then_some(1), (fmt & rf::RUNNING != 0).then_some(2));
        ensure!(t == w, "the group's times are {t:?} instead of {w:?}");
        ensure!(ReadValue::try_from(g.clone()).is_err(), "a group of {n} entries converts to a single value");
        let o = g.clone().into_owned();
        for g in [&g, &o] {
            for _ in 0..3 {
                let i = match cx.g.below(4) {
                    0 => n - 1,
                    1 => n,
                    2 => cx.g.range(65530, n),
                    _ => cx.g.below(n),
                };
                same(&format!("get({i}) of {n}"), &v(i), &eo(g.get(i)))?;
                same(&format!("nth({i}) of {n}"), &v(i), &eo(g.entries().nth(i)))?;
                same(&format!("nth_back({i}) of {n}"), &v(n.checked_sub(i + 1).unwrap_or(n)), &eo(g.entries().nth_back(i)))?;
                let id = i as u64 ^ 5;
                let want = (fmt & rf::ID != 0).then_some(i).filter(|i| *i < n).map_or(V::N, v);
                same(&format!("get_by_id({id}) of {n}"), &want, &eo(g.get_by_id(id)))?;
                let mut it = g.entries();
                it.nth(i);
                let left = n.saturating_sub(i + 1);
                ensure!(it.len() == left && it.size_hint() == (left, Some(left)), "{} entries left after nth({i}) of {n}", it.len());
            }
            same("last()", &v(n - 1), &eo(g.entries().last()))?;
            same("first", &v(0), &eo(g.entries().next()))?;
        }
        let rest = rest_of(&mut p).map_err(|x| err_text(&x))?;
        ensure!(rest == [0x77], "{} bytes left after the group instead of 1", rest.len());
        Ok(())
    })
}

pub fn case(cx: &mut Cx) -> R {
    if cx.g.upto(19_999) == 19_999 && !crate::gen::tiny() {
        return huge(cx);
    }
    let mut c = Cfg { read_format: cx.g.upto(rf::ALL), ..Default::default() };
    let mode = cx.g.weighted(&[40, 20, 20, 20]);
    match mode {
        0 => c.read_format |= rf::GROUP,
        1 | 2 => c.read_format &= !rf::GROUP,
        _ => {
            c.sample_type = st::READ | if cx.g.bool() { st::IP | st::CALLCHAIN } else { 0 };
        }
    }
    let size = if cx.g.pct(92) { Size::Small } else { Size::Any };
    let mut budget = 60_000;
    let mut m = genrec::read_m(&mut cx.g, c.read_format, size, &mut budget);
    if m.entries.len() > 1 && cx.g.pct(30) {
        // ids that collide with each other, with values and with lost counts
        for k in m.entries.iter_mut() {
            k.id &= 3;
            k.value &= 3;
            k.lost &= 3;
        }
    }
    let fmt = c.read_format;
    let e = AnyEndian::pick(&mut cx.g);
    let off = cx.g.below(8);
    let mut en = Enc::new(e.big());
    let mut tail = vec![];
    match mode {
        0 | 1 => {
            m.encode(&mut en, fmt);
            let n = cx.g.len(24);
            tail = cx.g.bytes(n);
            en.bytes(&tail);
        }
        2 => {
            let r = Rec { misc: 0, body: Body::Read { pid: 1, tid: 2, val: m.clone() }, sid: SidM::default(), surplus: vec![] };
            en.bytes(&r.encode(&c, e.big()).bytes);
        }
        _ => {
            let s = SampleM { ip: 3, callchain: vec![5, 6], values: m.clone(), ..Default::default() };
            let r = Rec { misc: 0, body: Body::Sample(Box::new(s)), sid: SidM::default(), surplus: vec![] };
            en.bytes(&r.encode(&c, e.big()).bytes);
        }
    }
    let data = en.out;
    let dec = |b: &[u8]| match mode {
        0 | 1 => drop(dec_read(&mut Rd { b, big: e.big() }, &c)),
        _ => drop(decode_record(b, &c, e.big())),
    };
    let Some(buf) = known::place(e, &data, off, dec) else { return masked(cx) };
    let plan = if cx.g.pct(60) { Plan::Slice } else { Plan::gen_split(&mut cx.g, data.len()) };
    cx.cfg_fp(&c);
    cx.fp(&data);
    cx.fpn(mode as u64);
    cx.nontrivial = !m.entries.is_empty();
    cx.label(match mode { 0 => "bare group", 1 => "bare value", 2 => "READ record", _ => "sample values" });
    cx.label(match m.entries.len() { 0 => "0 entries", 1 => "1 entry", 2..=8 => "2-8 entries", _ => "more entries" });
    cx.say(|| format!("read_format {fmt:#x}, {} entries, mode {mode}, {e:?} at +{off} via {}: {}", m.entries.len(), plan.label(), hex(&data)));
    with_source!(&plan, buf.get(), None, b => {
        let mut p = Parser::new(b, obs::config(&c, e));
        match mode {
            0 => {
                let g: ReadGroup = p.parse().map_err(|x| format!("group does not parse: {}", err_text(&x)))?;
                views(cx, &m, fmt, &g)?;
                let rest = rest_of(&mut p).map_err(|x| err_text(&x))?;
                ensure!(rest == tail, "{} bytes left after the group instead of {}", rest.len(), tail.len());
            }
            1 => {
                let v: ReadValue = p.parse().map_err(|x| format!("value does not parse: {}", err_text(&x)))?;
                single(cx, &m, fmt, &v)?;
                let rest = rest_of(&mut p).map_err(|x| err_text(&x))?;
                ensure!(rest == tail, "{} bytes left after the value instead of {}", rest.len(), tail.len());
            }
            2 => {
                let r: Record = p.parse().map_err(|x| format!("READ does not parse: {}", err_text(&x)))?;
                match &r {
                    Record::Read(x) => single(cx, &m, fmt, &x.values)?,
                    x => bail!("READ parses as {x:?}"),
                }
            }
            _ => {
                let r: Record = p.parse().map_err(|x| format!("SAMPLE does not parse: {}", err_text(&x)))?;
                match &r {
                    Record::Sample(s) => match s.values() {
                        Some(g) => views(cx, &m, fmt, g)?,
                        None => bail!("the sample has no values"),
                    },
                    x => bail!("SAMPLE parses as {x:?}"),
                }
            }
        }
        Ok(())
    })
}
