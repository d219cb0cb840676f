//! C15: symbol servers and their caches.
use crate::ev::*;
use crate::server::*;
use crate::util::tree;
use dump_syms::cache;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;

pub fn cabinet(members: &[(&str, &[u8])], mszip: bool) -> Vec<u8> {
    let mut b = cab::CabinetBuilder::new();
    let f = b.add_folder(if mszip { cab::CompressionType::MsZip } else { cab::CompressionType::None });
    for (n, _) in members {
        f.add_file(*n);
    }
    let mut w = b.build(std::io::Cursor::new(vec![])).unwrap();
    let mut i = 0;
    while let Some(mut fw) = w.next_file().unwrap() {
        fw.write_all(members[i].1).unwrap();
        i += 1;
    }
    w.finish().unwrap().into_inner()
}

/// What the answer of one place is.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Spot(Head, Get);

#[derive(Clone, Debug)]
struct Case {
    name: &'static str,
    /// per server: its cache (0: none, else number), the answers for the plain and the compressed name
    servers: Vec<(usize, Vec<Spot>)>,
    /// files in the caches beforehand: (cache, id, compressed)
    cached: Vec<(usize, &'static str, bool)>,
    /// text of the configuration: separators etc.
    form: usize,
    /// answers that take longer
    slow: u32,
}

const ID: &str = "0123456789ABCDEF0123456789ABCDEF1";

fn expanded(name: &str) -> String {
    name.replace(".pd_", ".pdb").replace(".dl_", ".dll").replace(".ex_", ".exe")
}
/// the names a server is asked for
fn asked(name: &str) -> Vec<String> {
    let mut v = vec![name.to_string()];
    if !name.ends_with('_') {
        let mut c: Vec<char> = name.chars().collect();
        c.pop();
        v.push(c.into_iter().collect::<String>() + "_");
    }
    v
}

fn content(tag: &str, n: usize) -> Vec<u8> {
    let mut v = format!("contents of {tag} ").into_bytes();
    while v.len() < n {
        let k = v.len() as u32;
        v.extend_from_slice(&k.wrapping_mul(2654435761).to_le_bytes());
    }
    v
}

thread_local! {
    static SERVER: Server = Server::new();
}

fn case(c: &Case) -> Result<Stats, Bad> {
    SERVER.with(|srv| {
        let d = Scratch::new("C15");
        let member = expanded(c.name);
        let mut answers = HashMap::new();
        let mut spots: Vec<(usize, Spot, Vec<u8>, Vec<u8>)> = vec![];
        for (i, (cache, sp)) in c.servers.iter().enumerate() {
            for (k, n) in asked(c.name).iter().enumerate() {
                let s = sp[k.min(sp.len() - 1)];
                let mut plain = content(&format!("server {i} {n}"), if s.1 == Get::Big { 300_001 } else { 5000 });
                if s.1 == Get::Tiny {
                    plain.truncate(1);
                }
                let cab = cabinet(&[("other.txt", b"something else"), (&member, &plain)], true);
                answers.insert(
                    format!("/s{i}/{}/{ID}/{n}", c.name),
                    Answer {
                        slow: c.slow & 1 << spots.len() != 0,
                        head: s.0,
                        get: s.1,
                        plain: plain.clone(),
                        cab: cab.clone(),
                    },
                );
                spots.push((*cache, s, plain, cab));
            }
        }
        srv.set(answers);
        let url = |i: usize| format!("http://127.0.0.1:{}/s{i}", srv.port);
        let cdir = |k: usize| d.p(&format!("cache{k}"));
        let mut conf: Vec<String> = c
            .servers
            .iter()
            .enumerate()
            .map(|(i, (cache, _))| match cache {
                0 => format!("{}*{}", if c.form == 1 { "srv" } else { "SRV" }, url(i)),
                k => format!("{}*{}*{}", if c.form == 1 { " Srv " } else { "SRV" }, cdir(*k).display(), url(i)),
            })
            .collect();
        if c.form == 2 {
            conf.insert(0, "cache*somewhere".into());
            conf.push("SRV*a*b*c".into());
            conf.push("".into());
        }
        if c.form == 3 {
            // nobody listens there
            conf.insert(0, format!("SRV*{}*http://127.0.0.1:9/none", cdir(9).display()));
        }
        let conf = conf.join(if c.form == 1 { "\n" } else { ";" });
        // what is in the caches beforehand
        let mut held: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for (k, id, compressed) in &c.cached {
            let plain = content(&format!("cache {k} {id}"), 3000);
            let raw = if *compressed { cabinet(&[(&member, &plain)], true) } else { plain };
            held.insert(format!("cache{k}/{member}/{id}/{}", c.name), raw);
        }
        for (p, b) in &held {
            std::fs::create_dir_all(d.p(p).parent().unwrap()).unwrap();
            std::fs::write(d.p(p), b).unwrap();
        }
        // model
        let order: Vec<usize> = c.servers.iter().map(|s| s.0).filter(|k| *k != 0).collect();
        let from_cache = order.iter().find(|k| c.cached.iter().any(|(q, id, _)| q == *k && *id == ID));
        let mut want_tree = held.clone();
        let mut repeatable = true;
        let want: Option<Vec<u8>> = match from_cache {
            Some(k) => Some(content(&format!("cache {k} {ID}"), 3000)),
            None => spots.iter().find(|(_, s, ..)| s.0.good() && s.1.good()).map(|(cache, s, plain, cab)| {
                let raw = if s.1 == Get::Cab { cab } else { plain };
                if *cache != 0 {
                    want_tree.insert(format!("cache{cache}/{member}/{ID}/{}", c.name), raw.clone());
                } else {
                    repeatable = false;
                }
                plain.clone()
            }),
        };
        let lookup = || -> Result<Option<Vec<u8>>, String> {
            guard(|| {
                let servers = cache::get_sym_servers(Some(&conf));
                let (r, name) = cache::search_file(c.name.to_string(), ID, servers.as_ref());
                assert_eq!(name, c.name);
                r
            })
        };
        let show = |r: &Result<Option<Vec<u8>>, String>| match r {
            Ok(None) => "nothing".to_string(),
            Ok(Some(b)) => format!("{} bytes: {}", b.len(), String::from_utf8_lossy(&b[..b.len().min(60)])),
            Err(e) => e.clone(),
        };
        let bad = |m: String| Bad::new(format!("{m}\n{c:?}\nconfiguration: {conf}\nrequests: {:?}", srv.log()));
        let files = || -> BTreeMap<String, Vec<u8>> { tree(&d.0).into_iter().filter_map(|(k, v)| v.map(|v| (k, v))).collect() };
        let r = lookup();
        if r != Ok(want.clone()) {
            return Err(bad(format!("the lookup returned {}, expected {}", show(&r), show(&Ok(want)))));
        }
        if from_cache.is_some() && !srv.log().is_empty() {
            return Err(bad("a server was asked for a file that is in a cache".into()));
        }
        let got = files();
        if got != want_tree {
            let diff: Vec<_> = got
                .iter()
                .filter(|(k, v)| want_tree.get(*k) != Some(v))
                .map(|(k, v)| format!("{k} ({} bytes)", v.len()))
                .chain(want_tree.keys().filter(|k| !got.contains_key(*k)).map(|k| format!("{k} missing")))
                .collect();
            return Err(bad(format!("the caches hold something else than expected: {diff:?}")));
        }
        // again, with servers that have forgotten everything
        srv.set(HashMap::new());
        let r2 = lookup();
        let want2 = if repeatable { want } else { None };
        if r2 != Ok(want2.clone()) {
            return Err(bad(format!("the second lookup returned {}, expected {}", show(&r2), show(&Ok(want2)))));
        }
        if want2.is_some() && !srv.log().is_empty() {
            return Err(bad("the second lookup asked a server".into()));
        }
        if files() != got {
            return Err(bad("the second lookup changed the caches".into()));
        }
        // and with servers in perfect order
        if want2.is_none() && !c.name.contains(' ') {
            let mut a = HashMap::new();
            let mut first = None;
            for i in 0..c.servers.len() {
                for n in asked(c.name) {
                    let plain = content(&format!("later {i} {n}"), 5000);
                    first = first.or(Some(plain.clone()));
                    let ans = Answer {
                        head: Head::Ok,
                        get: Get::Good,
                        slow: false,
                        plain,
                        cab: vec![],
                    };
                    a.insert(format!("/s{i}/{}/{ID}/{n}", c.name), ans);
                }
            }
            srv.set(a);
            let r3 = lookup();
            if r3 != Ok(first.clone()) {
                return Err(bad(format!("a later lookup, with working servers, returned {}, expected {}", show(&r3), show(&Ok(first)))));
            }
        }
        Ok(Stats {
            states: 1,
            transitions: 3,
            traces: 1,
            samples: vec![json!(format!("{c:?}"))],
        })
    })
}

pub fn c15(cx: &mut Ctx) {
    let deep = cx.thorough;
    let t = true;
    use Get::*;
    let gets = [
        Good, Cab, Chunked, Close, Redirect, Cut, CutChunked, Empty, NotFoundText, NotFoundLong, Tiny, Big, Page404, Page500, Page403, Partial, Get::Drop, RedirectBad, CabCut, CabOther,
    ];
    let heads = [Head::Ok, Head::Missing, Head::Error, Head::Drop, Head::Redirect, Head::NoContent];
    let mut cases = vec![];
    // one server: all answers to both requests
    let mut all = vec![];
    for h in heads {
        for g in gets {
            if h.good() || matches!(g, Good | Cut | Page404) {
                all.push(Spot(h, g));
            }
        }
    }
    let few = [
        Spot(Head::Ok, Good),
        Spot(Head::Ok, Cab),
        Spot(Head::Ok, Cut),
        Spot(Head::Ok, CabCut),
        Spot(Head::Ok, Page404),
        Spot(Head::Ok, Empty),
        Spot(Head::Missing, Good),
        Spot(Head::Drop, Page404),
    ];
    let second: &[Spot] = if t { &all } else { &few };
    for a in &all {
        for b in second {
            for cache in [0, 1] {
                for (x, y) in [(a, b), (b, a)] {
                    cases.push(Case {
                        name: "a.pdb",
                        servers: vec![(cache, vec![*x, *y])],
                        cached: vec![],
                        form: 0,
                        slow: 0,
                    });
                }
            }
        }
    }
    cx.run("one_server", cases.len(), |k| case(&cases[k]));
    // two servers
    let mut cases = vec![];
    let mut few: Vec<Spot> = few.to_vec();
    if deep {
        few.extend([Spot(Head::Redirect, Redirect), Spot(Head::Ok, CutChunked), Spot(Head::Ok, NotFoundText), Spot(Head::Ok, CabOther), Spot(Head::Error, Good)]);
    }
    for a in &few {
        for b in &few {
            for c in &few {
                for d in &few {
                    for caches in [(1, 2), (0, 1), (1, 0), (1, 1)] {
                        if !t && caches != (1, 2) && (a == b || c == d) {
                            continue;
                        }
                        cases.push(Case {
                            name: "a.pdb",
                            servers: vec![(caches.0, vec![*a, *b]), (caches.1, vec![*c, *d])],
                            cached: vec![],
                            form: 0,
                            slow: 0,
                        });
                    }
                }
            }
        }
    }
    cx.run("two_servers", cases.len(), |k| case(&cases[k]));
    // some answers come later than others
    let mut cases = vec![];
    for slow in 1..15 {
        for pat in 1..16u32 {
            for get in [Get::Cut, Get::Page404] {
                let sp = |i: u32| if pat & 1 << i != 0 { Spot(Head::Ok, Good) } else { Spot(Head::Ok, get) };
                cases.push(Case {
                    name: "a.pdb",
                    servers: vec![(1, vec![sp(0), sp(1)]), (2, vec![sp(2), sp(3)])],
                    cached: vec![],
                    form: 0,
                    slow,
                });
            }
        }
    }
    cx.run("timing", cases.len(), |k| case(&cases[k]));
    // what the caches hold, names, forms of the configuration
    let mut cases = vec![];
    let other = "FFFF456789ABCDEF0123456789ABCDEF1";
    let holds: Vec<Vec<(usize, &'static str, bool)>> = vec![
        vec![],
        vec![(1, ID, false)],
        vec![(1, ID, true)],
        vec![(2, ID, false)],
        vec![(2, ID, true)],
        vec![(1, ID, false), (2, ID, false)],
        vec![(1, other, false)],
        vec![(1, other, false), (2, ID, false)],
        vec![(3, ID, false)],
    ];
    let answers = [Spot(Head::Ok, Good), Spot(Head::Ok, Cab), Spot(Head::Missing, Page404), Spot(Head::Ok, Cut)];
    for name in ["a.pdb", "a.pd_", "a.dll", "a.dl_", "a.exe", "a.ex_", "b c.pdb", "a.b.pdb", "libx.so", "noext"] {
        for h in &holds {
            for form in 0..4 {
                for caches in [vec![1], vec![1, 2], vec![2, 1], vec![0, 1], vec![0, 0], vec![2, 0, 1]] {
                    for a in answers {
                        if !t && name != "a.pdb" && (form != 0 || caches.len() == 3) {
                            continue;
                        }
                        // a name with blanks is asked for in another way
                        let servers: Vec<_> = caches.iter().map(|k| (*k, vec![if name.contains(' ') { Spot(Head::Missing, Page404) } else { a }])).collect();
                        cases.push(Case {
                            name,
                            servers,
                            cached: h.clone(),
                            form,
                            slow: 0,
                        });
                    }
                }
            }
        }
    }
    // every name, plain and compressed
    for name in ["a.pd_", "a.dll", "a.dl_", "a.exe", "a.ex_", "a.b.pdb", "libx.so", "noext", "x", "a.b", "pdb", "_", "a.", ".pdb", "A.PDB", "w_.sys"] {
        for x in &few {
            for y in &few {
                for cache in [0, 1] {
                    let mut spots = vec![*x, *y];
                    spots.truncate(asked(name).len());
                    cases.push(Case { name, servers: vec![(cache, spots)], cached: vec![], form: 0, slow: 0 });
                }
            }
        }
    }
    cx.run("caches", cases.len(), |k| case(&cases[k]));
    // no configuration, or one in the home directory
    let d = Scratch::new("C15home");
    std::env::set_var("HOME", &d.0);
    let srv = Server::new();
    let plain = content("home", 3000);
    let url = format!("http://127.0.0.1:{}/s0", srv.port);
    let all = || {
        let mut a = HashMap::new();
        a.insert(
            format!("/s0/a.pdb/{ID}/a.pdb"),
            Answer {
                head: Head::Ok,
                get: Good,
                slow: false,
                plain: plain.clone(),
                cab: vec![],
            },
        );
        a
    };
    let look = |conf: Option<&str>| guard(|| cache::search_file("a.pdb".into(), ID, cache::get_sym_servers(conf).as_ref()).0);
    let mut home = || -> Result<(), String> {
        srv.set(all());
        if look(None)?.is_some() {
            return Err("a file was found without any server".into());
        }
        std::fs::create_dir_all(d.p(".dump_syms")).unwrap();
        std::fs::write(d.p(".dump_syms/config"), format!("SRV*~/mine*{url}\n")).unwrap();
        if look(Some(""))?.is_some() {
            return Err("a file was found with an empty list of servers".into());
        }
        if look(None)?.as_ref() != Some(&plain) {
            return Err("the servers of the configuration file weren't used".into());
        }
        let got = std::fs::read(d.p(&format!("mine/a.pdb/{ID}/a.pdb"))).unwrap_or_default();
        if got != plain {
            return Err("the cache in the home directory wasn't filled".into());
        }
        srv.set(HashMap::new());
        if look(None)?.as_ref() != Some(&plain) {
            return Err("the cache in the home directory wasn't used".into());
        }
        if !srv.log().is_empty() {
            return Err("the server was asked again".into());
        }
        cx.stats.samples.push(json!({"configuration": "~/.dump_syms/config", "lookups": 4}));
        Ok(())
    };
    let r = home().map_err(Bad::new);
    cx.check("home", r);
    cx.assume("the server answers over the loopback interface without TLS; answers whose end is marked by the end of the connection count as complete");
}
