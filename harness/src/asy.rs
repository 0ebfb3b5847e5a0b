//! Asynchronous entry points against the synchronous ones (built with the feature "async" only).
use crate::props::*;
use asupersync::stream::Stream;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use toon::options::{DecodeStreamOptions, EncodeOptions};
use toon::JsonStreamEvent as E;
fn wait<F: Future>(f: F) -> Result<F::Output, String> {
    let mut f = Box::pin(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..2_000_000 { if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return Ok(x); } }
    Err("the future never completes".into())
}
fn drain<S: Stream + Unpin>(mut s: S, most: usize) -> Result<Vec<S::Item>, String> {
    let mut cx = Context::from_waker(Waker::noop());
    let (mut out, mut idle) = (vec![], 0);
    loop {
        if out.len() > most { return Err(format!("the stream yields more than {most} items")); }
        match Pin::new(&mut s).poll_next(&mut cx) { Poll::Ready(Some(x)) => out.push(x), Poll::Ready(None) => break, Poll::Pending => { idle += 1; if idle > 1_000_000 { return Err("the stream never ends".into()); } } }
    }
    for _ in 0..2 { if let Poll::Ready(Some(_)) = Pin::new(&mut s).poll_next(&mut cx) { return Err("the stream goes on after its end".into()); } }
    Ok(out)
}
fn same<T: PartialEq + std::fmt::Debug>(what: &str, want: &[T], got: &[T]) -> Result<(), String> {
    match (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i)) { None => Ok(()), Some(i) => Err(clip(&format!("{what}: item {i} should be {:?}, is {:?}", want.get(i), got.get(i)))) }
}
fn agree<T: PartialEq + std::fmt::Debug>(what: &str, want: &Result<Vec<T>, String>, got: Result<Vec<T>, String>) -> Result<(), String> {
    match (want, got) { (Ok(w), Ok(g)) => same(what, w, &g), (Ok(_), Err(e)) => Err(format!("{what}: fails where the synchronous decoder succeeds: {e}")), (Err(e), Ok(_)) => Err(format!("{what}: succeeds where the synchronous decoder fails: {e}")), (Err(_), Err(_)) => Ok(()) }
}
pub fn decide(c: &Case) -> Result<(), String> {
    if c.op == "text" {
        let o = if c.n == 0 { None } else { Some(DecodeStreamOptions { indent: if c.n & 1 == 1 { Some(c.indent) } else { None }, strict: if c.n & 2 == 2 { Some(c.strict) } else { None } }) };
        let lines = || c.t.split('\n').map(str::to_string).collect::<Vec<_>>();
        let want = toon::try_decode_stream_sync(lines(), o.clone()).map_err(|e| e.to_string());
        agree("try_decode_stream_async", &want, wait(toon::decode::try_decode_stream_async(lines(), o.clone()))?.map_err(|e| e.to_string()))?;
        agree("try_decode_stream", &want, wait(toon::decode::try_decode_stream(lines(), o.clone()))?.map_err(|e| e.to_string()))?;
        if let Ok(w) = &want {
            same("decode_stream_async", w, &wait(toon::decode::decode_stream_async(lines(), o.clone()))?)?;
            same("decode_stream", w, &wait(toon::decode::decode_stream(lines(), o.clone()))?)?;
        }
        for x in [false, true] {
            let d = dopt(c.indent, c.strict, x);
            let w = toon::try_decode(&c.t, d.clone()).map(|v| vec![v]).map_err(|e| e.to_string());
            agree(&format!("try_decode_async, expand={x}"), &w, wait(toon::decode::try_decode_async(&c.t, d))?.map(|v| vec![v]).map_err(|e| e.to_string()))?;
        }
        let got = drain(toon::decode::AsyncDecodeStream::new(lines().into_iter(), o), 16 * (c.t.len() + 4))?;
        let n = got.iter().position(|e| e.is_err()).unwrap_or(got.len());
        if n + 1 < got.len() { return Err("the decode stream goes on after an error".into()); }
        let evs: Vec<E> = got.iter().flatten().cloned().collect();
        match want {
            Ok(w) => { if n < got.len() { return Err(format!("the decode stream fails where the synchronous decoder succeeds: {}", got[n].as_ref().unwrap_err())); } same("decode stream", &w, &evs) }
            Err(e) => if n == got.len() { Err(format!("the decode stream succeeds where the synchronous decoder fails: {e}")) } else { Ok(()) },
        }
    } else {
        let o: Option<EncodeOptions> = if c.n == 1 { None } else { let mut o = c.eo().unwrap(); if c.n > 1 { let seed = c.n; o.replacer = Some(std::sync::Arc::new(move |k: &str, v: &toon::JsonValue, p: &[toon::options::PathSegment]| { let path: String = p.iter().map(|s| match s { toon::options::PathSegment::Key(k) => format!("/k{k}"), toon::options::PathSegment::Index(i) => format!("/i{i}") }).collect(); crate::refs::rule(seed, k, v, &path) })); } Some(o) };
        let lines = toon::encode_lines(c.v.clone(), o.clone());
        let text = toon::encode(c.v.clone(), o.clone());
        let evs = toon::encode_stream_events(c.v.clone(), o.clone());
        use toon::encode::async_encode as a;
        same("encode_lines_async", &lines, &wait(a::encode_lines_async(c.v.clone(), o.clone()))?)?;
        same("try_encode_lines_async", &lines, &wait(a::try_encode_lines_async(c.v.clone(), o.clone()))?.map_err(|e| e.to_string())?)?;
        same("encode_async", &[&text], &[&wait(a::encode_async(c.v.clone(), o.clone()))?])?;
        same("try_encode_async", &[&text], &[&wait(a::try_encode_async(c.v.clone(), o.clone()))?.map_err(|e| e.to_string())?])?;
        same("encode_events_async", &evs, &wait(a::encode_events_async(c.v.clone(), o.clone()))?)?;
        same("try_encode_events_async", &evs, &wait(a::try_encode_events_async(c.v.clone(), o.clone()))?.map_err(|e| e.to_string())?)?;
        let s = a::AsyncEncodeStream::new(c.v.clone(), o.clone());
        if s.len() != lines.len() || s.is_empty() != lines.is_empty() { return Err("length of the line stream".into()); }
        same("encode line stream", &lines, &drain(s, lines.len())?)?;
        same("encode event stream", &evs, &drain(a::AsyncEncodeEventStream::new(c.v.clone(), o), evs.len())?)
    }
}
