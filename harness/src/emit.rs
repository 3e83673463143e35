//! `harness emit N SEED`: prints documents, requests and the reference model's
//! answers as JSON lines, for cross-validation against another implementation
//! of the format (see /verif/xval). Never part of a check.

use crate::gens;
use crate::model::*;
use crate::runner::sample;
use crate::urlmodel;
use proptest::prelude::*;
use serde_json::{json, Value};

fn cand(c: Vec<Option<Found>>) -> Value {
    if c.is_empty() {
        return json!([null]);
    }
    json!(c
        .into_iter()
        .map(|f| f.map(|f| json!({
            "source": f.source, "name": f.name, "line": f.orig.map(|o| o.0), "column": f.orig.map(|o| o.1),
            "gline": f.gen.0, "gcolumn": f.gen.1
        })))
        .collect::<Vec<_>>())
}

fn answer(d: &Doc, r: &Req) -> Option<Value> {
    Some(match r {
        Req::Fwd { line, col, lub } => json!({"kind": "fwd", "line": line, "column": col, "lub": lub,
            "any": cand(d.fwd(*line as i64 - 1, *col as i64, *lub == Some(true)).into_iter().map(|s| expect_found(d, s)).collect())}),
        Req::Rev { src, line, col, lub } => json!({"kind": "rev", "source": src, "line": line, "column": col, "lub": lub,
            "any": cand(d.find(src).map(|i| d.rev(i, *line as i64 - 1, *col as i64, *lub == Some(true))).unwrap_or_default().into_iter().map(|s| expect_found(d, s)).collect())}),
        Req::All { src, line, col } => json!({"kind": "all", "source": src, "line": line, "column": col,
            "set": d.find(src).map(|i| d.all(i, *line as i64 - 1, col.map(|c| c as i64))).unwrap_or_default().into_iter().map(|s| (s.gl + 1, s.gc)).collect::<Vec<_>>()}),
        Req::Each { original } => json!({"kind": "each", "original": original,
            "set": d.segs.iter().filter(|s| !original || s.orig.is_some()).map(|s| match expect_found(d, s) {
                Some(f) => json!([s.gl + 1, s.gc, f.source, f.orig.map(|o| o.0), f.orig.map(|o| o.1), f.name]),
                None => json!([s.gl + 1, s.gc, null, null, null, null]),
            }).collect::<Vec<_>>()}),
        Req::Content { src, .. } => json!({"kind": "content", "source": src,
            "known": d.find(src).is_some(), "text": d.find(src).and_then(|i| d.content(i))}),
        Req::HasAll => json!({"kind": "hasall", "value": d.has_all()}),
        Req::Sources => json!({"kind": "sources", "list": d.resolved}),
        Req::Spans => return None,
    })
}

fn sections(x: &Index, r: &Req) -> Option<Value> {
    Some(match r {
        Req::Fwd { line, col, lub: None } => {
            let (l, c) = (*line as i64 - 1, *col as i64);
            let any = match x.at(l, c) {
                None => json!([null]),
                Some(i) => {
                    let s = &x.sects[i];
                    let rc = if l == s.line as i64 { c - s.col as i64 } else { c };
                    cand(s.doc.fwd(l - s.line as i64, rc, false).into_iter().map(|g| expect_found(&s.doc, g)).collect())
                }
            };
            json!({"kind": "fwd", "line": line, "column": col, "lub": null, "any": any})
        }
        Req::Sources => json!({"kind": "sources", "list": x.names().0}),
        _ => return None,
    })
}

pub fn emit(n: u64, seed: u64) {
    let plain = (gens::docc(false), gens::plain_map_url(), proptest::collection::vec(gens::reqc(), 1..30)).boxed();
    let index = (gens::sectcs(false, 4), gens::plain_map_url(), proptest::collection::vec(gens::reqc(), 1..30)).boxed();
    let pair = crate::props::urls::pairs();
    let names = crate::props::urls::named();
    for i in 0..n {
        let (c, m, rs) = sample(&plain, seed, i);
        let d = build(&c, m.as_deref());
        let v: Vec<Value> = rs.iter().filter_map(|r| answer(&d, &r.for_doc(&d))).collect();
        println!("{}", json!({"what": "plain", "doc": d.json, "mapUrl": m, "requests": v}));
        let (c, m, rs) = sample(&index, seed, i);
        let x = build_index(&c, m.as_deref());
        let v: Vec<Value> = rs.iter().filter_map(|r| sections(&x, &r.for_index(&x))).collect();
        println!("{}", json!({"what": "index", "doc": x.json, "mapUrl": m, "requests": v}));
        let (r, p) = sample(&pair, seed, i);
        println!("{}", json!({"what": "join", "root": r, "path": p, "join": urlmodel::join(&r, &p),
            "relative": urlmodel::relative(&r, &p), "normalize": urlmodel::normalize(&p)}));
        let (s, r, m) = sample(&names, seed, i);
        let out: Vec<String> = s.iter().map(|s| urlmodel::compute_source_url(r.as_deref(), s, m.as_deref())).collect();
        println!("{}", json!({"what": "names", "sources": s, "root": r, "mapUrl": m, "resolved": out}));
    }
}
