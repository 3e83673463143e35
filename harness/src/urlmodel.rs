//! Reference model of URL references as the library uses them: four kinds of
//! reference, dot-segment removal, resolution against a directory, and
//! relativisation. Works on lists of path segments, without a URL parser and
//! without the "safe base" device of the library.
//!
//! Domain: no default ports in scheme-relative references; an opaque URL (`data:`) only
//! as something resolved, not as a base.

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Abs,
    SchemeRel,
    PathAbs,
    PathRel,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ref {
    pub kind: Kind,
    pub scheme: String,
    pub auth: String,
    /// An absolute reference without authority ("c:/x").
    pub bare: bool,
    /// The path of a reference that has no hierarchy ("data:x").
    pub opaque: Option<String>,
    /// Segments after the leading slash (if any); a trailing "" is a trailing slash.
    pub segs: Vec<String>,
    pub query: Option<String>,
    pub frag: Option<String>,
}

fn special(scheme: &str) -> bool {
    matches!(scheme, "http" | "https" | "file" | "ws" | "wss" | "ftp")
}

/// An absolute reference whose scheme the URL standard gives no special rules.
pub fn own_rules(s: &str) -> bool {
    let r = parse(s);
    r.kind == Kind::Abs && !special(&r.scheme)
}

fn scheme_of(s: &str) -> Option<&str> {
    let i = s.find(':')?;
    let h = &s[..i];
    let mut cs = h.chars();
    if !cs.next()?.is_ascii_alphabetic() {
        return None;
    }
    if cs.all(|c| c.is_ascii_alphanumeric() || c == '+' || c == '-' || c == '.') {
        Some(h)
    } else {
        None
    }
}

pub fn kind_of(s: &str) -> Kind {
    if s.starts_with("//") {
        Kind::SchemeRel
    } else if s.starts_with('/') {
        Kind::PathAbs
    } else if scheme_of(s).is_some() {
        Kind::Abs
    } else {
        Kind::PathRel
    }
}

fn pct(s: &str, extra: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if (c as u32) < 0x20 || (c as u32) > 0x7e || extra.contains(c) {
            let mut b = [0; 4];
            for x in c.encode_utf8(&mut b).bytes() {
                o.push_str(&format!("%{:02X}", x));
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// "C:" as the first segment of a file URL.
fn drive(seg: &str) -> bool {
    seg.len() == 2 && seg.ends_with(':') && seg.starts_with(|c: char| c.is_ascii_alphabetic())
}

/// Removes dot segments (their dots may be percent-encoded); `relative` keeps
/// leading "..", and a drive letter is never climbed over.
fn dots(segs: &[String], relative: bool, file: bool) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for (i, s) in segs.iter().enumerate() {
        let last = i + 1 == segs.len();
        let plain = s.replace("%2e", ".").replace("%2E", ".");
        match plain.as_str() {
            "." => {
                if last {
                    out.push(String::new())
                }
            }
            ".." => {
                match out.last().map(|x| x.as_str()) {
                    Some("..") if relative => out.push("..".into()),
                    None => {
                        if relative {
                            out.push("..".into())
                        }
                    }
                    Some(s) if file && out.len() == 1 && drive(s) => {}
                    Some(_) => {
                        out.pop();
                    }
                }
                if last {
                    out.push(String::new())
                }
            }
            _ => out.push(s.clone()),
        }
    }
    out
}

/// The host in lower case, without the scheme's own port.
fn canonical(scheme: &str, auth: &str) -> String {
    let (user, host) = match auth.rfind('@') {
        Some(i) => auth.split_at(i + 1),
        None => ("", auth),
    };
    let host = host.to_ascii_lowercase();
    let port = match scheme {
        "http" | "ws" => ":80",
        "https" | "wss" => ":443",
        "ftp" => ":21",
        _ => "",
    };
    let host = if port.is_empty() { &host } else { host.strip_suffix(port).unwrap_or(&host) };
    format!("{}{}", user, host)
}

pub fn parse(s: &str) -> Ref {
    let (s, frag) = match s.find('#') {
        Some(i) => (&s[..i], Some(pct(&s[i + 1..], " \"<>`"))),
        None => (s, None),
    };
    let (s, query) = match s.find('?') {
        Some(i) => (&s[..i], Some(s[i + 1..].to_string())),
        None => (s, None),
    };
    let kind = kind_of(s);
    let mut scheme = String::new();
    let mut auth = String::new();
    let mut rest = s;
    if kind == Kind::Abs {
        let h = scheme_of(s).unwrap_or("");
        scheme = h.to_ascii_lowercase();
        rest = &s[h.len() + 1..];
    }
    let mut rest = rest.to_string();
    if kind != Kind::Abs || special(&scheme) {
        rest = rest.replace('\\', "/");
    }
    let query = query.map(|q| {
        pct(&q, if kind != Kind::Abs || special(&scheme) { " \"<>'" } else { " \"<>" })
    });
    let mut path = rest.clone();
    let mut no_path = false;
    let mut bare = false;
    let mut opaque = None;
    if kind == Kind::Abs && !special(&scheme) && !rest.starts_with("//") {
        bare = true;
        if !rest.starts_with('/') {
            opaque = Some(pct(&rest, ""));
            no_path = true;
        }
    } else if kind == Kind::Abs || kind == Kind::SchemeRel {
        let r = rest.strip_prefix("//").unwrap_or(&rest).to_string();
        match r.find('/') {
            Some(i) => {
                auth = r[..i].to_string();
                path = r[i..].to_string();
            }
            None => {
                auth = r;
                path = String::new();
                no_path = kind == Kind::SchemeRel || !special(&scheme);
            }
        }
    }
    let p = if kind == Kind::PathRel { &path[..] } else { path.strip_prefix('/').unwrap_or(&path) };
    let segs: Vec<String> = if no_path {
        vec![]
    } else {
        p.split('/').map(|x| pct(x, " \"<>`{}^")).collect()
    };
    let segs = dots(&segs, kind == Kind::PathRel, kind == Kind::Abs && scheme == "file");
    if kind == Kind::SchemeRel || kind == Kind::Abs && special(&scheme) {
        auth = canonical(&scheme, &auth);
    }
    Ref { kind, scheme, auth, bare, opaque, segs, query, frag }
}

pub fn show(r: &Ref) -> String {
    let mut s = String::new();
    match r.kind {
        Kind::Abs => {
            s.push_str(&r.scheme);
            s.push_str(if r.bare { ":" } else { "://" });
            s.push_str(&r.auth);
            s.push_str(r.opaque.as_deref().unwrap_or(""));
        }
        Kind::SchemeRel => {
            s.push_str("//");
            s.push_str(&r.auth);
        }
        _ => {}
    }
    let path = r.segs.join("/");
    match r.kind {
        // A first segment that is empty or looks like a scheme.
        Kind::PathRel if kind_of(&path) != Kind::PathRel => s.push_str("./"),
        // One that would look like an authority.
        Kind::PathAbs if path.starts_with('/') => s.push_str("/."),
        Kind::Abs if r.bare && r.opaque.is_none() && path.starts_with('/') => s.push_str("/."),
        _ => {}
    }
    if r.kind != Kind::PathRel && (!r.segs.is_empty() || r.kind != Kind::Abs || special(&r.scheme)) && r.opaque.is_none() {
        s.push('/');
    }
    s.push_str(&path);
    if let Some(q) = &r.query {
        s.push('?');
        s.push_str(q);
    }
    if let Some(f) = &r.frag {
        s.push('#');
        s.push_str(f);
    }
    s
}

pub fn normalize(s: &str) -> String {
    show(&parse(s))
}

/// The reference as a directory: with a trailing slash, no query or fragment.
fn directory(r: &Ref) -> Ref {
    let mut d = r.clone();
    d.query = None;
    d.frag = None;
    if d.segs.last().map_or(true, |l| !l.is_empty()) {
        d.segs.push(String::new());
    }
    d
}

/// The reference itself, of the directory the file is in.
fn parent(r: &Ref) -> Ref {
    let mut d = r.clone();
    d.query = None;
    d.frag = None;
    d.segs.pop();
    d.segs.push(String::new());
    d
}

fn under(dir: &Ref, p: &Ref, raw: &[String]) -> Ref {
    let mut segs = dir.segs.clone();
    segs.pop();
    segs.extend(raw.iter().cloned());
    let mut out = dir.clone();
    out.segs = dots(&segs, dir.kind == Kind::PathRel, dir.scheme == "file");
    out.query = p.query.clone();
    out.frag = p.frag.clone();
    out
}

fn resolve(dir: &Ref, p: &Ref) -> Ref {
    let mut out;
    match p.kind {
        Kind::Abs => p.clone(),
        Kind::SchemeRel => {
            if dir.kind == Kind::Abs {
                out = p.clone();
                out.kind = Kind::Abs;
                out.scheme = dir.scheme.clone();
                if special(&out.scheme) && out.segs.is_empty() {
                    out.segs.push(String::new());
                }
                // A bare authority stays bare outside the special schemes.
                out
            } else {
                p.clone()
            }
        }
        Kind::PathAbs => match dir.kind {
            Kind::Abs | Kind::SchemeRel => {
                out = dir.clone();
                out.segs = p.segs.clone();
                // A rooted path stays on the drive.
                if dir.scheme == "file" {
                    if let (Some(d), false) = (dir.segs.first().filter(|d| drive(d)), p.segs.first().map_or(false, |s| drive(s))) {
                        out.segs.insert(0, d.clone());
                    }
                }
                out.query = p.query.clone();
                out.frag = p.frag.clone();
                out
            }
            _ => p.clone(),
        },
        Kind::PathRel => under(dir, p, &p.segs),
    }
}

pub fn join(root: &str, path: &str) -> String {
    let r = directory(&parse(root));
    show(&resolve(&r, &parse(path)))
}

fn ups(r: &Ref) -> usize {
    r.segs.iter().take_while(|s| *s == "..").count()
}

/// The relativised reference, or `None` where it is not determined: a relative
/// root that climbs higher than the relative target, or another drive.
pub fn relative(root: &str, target: &str) -> Option<String> {
    let (r, t) = (rooted(parse(root)), rooted(parse(target)));
    // Not determined between an empty authority and none.
    if r.bare != t.bare && r.auth.is_empty() && t.auth.is_empty() && r.scheme == t.scheme {
        return None;
    }
    if apart(&r, &t) {
        return Some(show(&t));
    }
    if r.kind == Kind::PathRel && ups(&r) > ups(&t) {
        return None;
    }
    // Nor is it from one drive to another.
    let on = |x: &Ref| x.segs.first().filter(|s| drive(s)).cloned();
    if r.scheme == "file" && on(&r) != on(&t) {
        return None;
    }
    let (a, b) = strip_common(&r, &t);
    let mut segs: Vec<String> = a.iter().map(|_| "..".to_string()).collect();
    segs.extend(b);
    let out = Ref { kind: Kind::PathRel, scheme: String::new(), auth: String::new(), bare: false, opaque: None, segs, query: t.query, frag: t.frag };
    Some(show(&out))
}

/// Of different kinds or hosts, or without a hierarchy.
fn apart(r: &Ref, t: &Ref) -> bool {
    r.kind != t.kind || r.scheme != t.scheme || r.auth != t.auth || r.bare != t.bare || t.opaque.is_some()
}

/// A scheme-relative reference without path is one with the path "/".
fn rooted(mut r: Ref) -> Ref {
    if r.kind == Kind::SchemeRel && r.segs.is_empty() {
        r.segs.push(String::new());
    }
    r
}

fn strip_common(r: &Ref, t: &Ref) -> (Vec<String>, Vec<String>) {
    let mut a = r.segs.clone();
    if a.last().map_or(false, |l| l.is_empty()) {
        a.pop();
    }
    let mut b = t.segs.clone();
    // A path without any segment is the empty path; one of a relative
    // reference to the directory itself has one empty segment.
    let n = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    a.drain(..n);
    b.drain(..n);
    (a, b)
}

/// Is the target the root itself or a directory above it, spelled without a
/// trailing slash? (Then the relative reference names the directory instead.)
pub fn is_root_or_above(root: &str, target: &str) -> bool {
    let (r, t) = (rooted(parse(root)), rooted(parse(target)));
    if apart(&r, &t) {
        return false;
    }
    strip_common(&r, &t).1.is_empty()
}

pub fn compute_source_url(root: Option<&str>, source: &str, map: Option<&str>) -> String {
    let root = root.filter(|r| !r.is_empty());
    let map = map.filter(|r| !r.is_empty());
    let mut s = source.to_string();
    if root.is_some() && kind_of(&s) == Kind::PathAbs {
        s.remove(0);
        // Only the slash is taken away: a colon does not make it absolute.
        if kind_of(&s) == Kind::Abs {
            s.insert_str(0, "./");
        }
    }
    let mut url = normalize(&s);
    if let Some(r) = root {
        url = join(r, &url);
    }
    if let Some(m) = map {
        url = show(&resolve(&parent(&parse(m)), &parse(&url)));
    }
    url
}
