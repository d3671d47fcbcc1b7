//! C12 and C16-C21: clients and daemons over real sockets (and C12 in memory).

use super::service::*;
use crate::inject;
use crate::engine::*;
use crate::logcap;
use crate::model::*;
use crate::net::{self, LONG};
use crate::reg::*;
use crate::render::*;
use crate::uw::*;
use crate::wire::*;
use futures_lite::future;
use std::collections::BTreeSet;
use std::io;
use std::net::{IpAddr, Ipv4Addr, SocketAddr, UdpSocket};
use std::ops::ControlFlow;
use std::os::unix::thread::JoinHandleExt;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex, Once};
use std::thread::JoinHandle;
use std::time::{Duration, Instant};
use uwuhi::name::DomainName;
use uwuhi::packet::records::Record;
use uwuhi::packet::QType;
use uwuhi::resolver::{self, SyncResolver};
use uwuhi::service::advertising::{Advertiser, SyncAdvertiser};
use uwuhi::service::discovery::{self, SyncDiscoverer};
use uwuhi::service::{InstanceDetails, Service, ServiceInstance, ServiceTransport, TxtRecords};
use uwuhi::tap::SyncTap;
use uwuhi::MDNS_BUFFER_SIZE;
use uwuhi_async::resolver::AsyncResolver;
use uwuhi_async::service::advertising::AsyncAdvertiser;
use uwuhi_async::service::discovery::AsyncDiscoverer;

const fn nsub(name: &'static str, quick: u64, thorough: u64, run: CaseFn, rule: &'static str) -> Sub {
    Sub { name, rule, quick, thorough, run, net: true }
}

mod faults;
mod long;
mod share;

pub fn props() -> Vec<Prop> {
    let mut v = share::props();
    v.extend(faults::props());
    v.extend(long::props());
    v.extend([
        Prop {
            id: "C12",
            subs: vec![
                sub("inmemory", 400_000, 10_000_000, c12_inmemory, "Registrations (hosts with several addresses, instances sharing types and hosts, arbitrary bytes in names, arbitrary TXT metadata), then the client steps through encode_query, handle_packet and decode_answer for every type, instance and host; sets must be equal. Non-trivial: at least two instances."),
                nsub("multicast", 400, 12_000, c12_multicast, "The same walk with the synchronous or asynchronous discoverer and resolver over multicast against a listening synchronous or asynchronous advertiser in a network namespace of its own; non-trivial: at least two instances."),
            ],
            assumptions: vec!["registered names differ by more than ASCII case, and no instance is registered twice", "answers that exceed 1500 bytes may be incomplete"],
        },
        Prop {
            id: "C16",
            subs: vec![nsub("resolve", 16_000, 600_000, c16_resolve, "A resolver (sync or async, IPv4 or IPv6) with 1-3 fake servers that count and check queries and send 0-24 generated datagrams (garbage, mutated, cut, foreign, empty, oversized, address-less, partly damaged, duplicate and genuine responses) per call, 1-4 calls per resolver, some of them ending in a timeout or with an unusable name. The reference parser gives the first usable response. Non-trivial: at least one datagram before the answer, or a second call."),
                nsub("late", 24, 600, |s, c| faults::late(s, c, &[3]), "8 resolvers at a time (sync and async) get their answer 1.1-1.7 s after the query, their time is 25 s or up to Duration::MAX; all count."),
                nsub("flood", 400, 10_000, |s, c| faults::flood(s, c, &[3]), "Calls (sync or async, 1-3 per client) whose socket always has another useless packet to read, before the query is sent and for a while after it, or for ever (the receive functions of the C library are replaced for the thread). The answer comes after the query all the same and must be used. Non-trivial: more than 1000 packets in a call."),
                nsub("defaults", 24, 600, |s, c| faults::defaults(s, c, &[3]), "8 resolvers at a time whose time was never set, answered at once or never; all count."),
                nsub("scoped", 4_000, 100_000, |s, c| faults::scoped(s, c, &[3]), "Servers at the same IPv6 link-local address and port on two links to another host (network namespaces joined by two pairs of virtual devices); the query must go to the server whose scope was given, or with servers on both links to both, and the answer from there must be used, in 1-3 calls; all count."),
            ],
            assumptions: vec!["an address record of another class than IN, or in a response with an error code, may be used or not", "datagrams are delivered in order on the loopback device", "datagrams of earlier calls that arrive only after the next query was sent are not generated"],
        },
        Prop {
            id: "C17",
            subs: vec![
                nsub("instances", 40_000, 1_500_000, c17_instances, "Instance discovery (sync or async, IPv4 or IPv6, any domain) against a fake server sending 0-24 generated datagrams per call (several PTR targets drawn from a small pool with near misses, other and damaged records, mutated and foreign packets), then a sentinel; 1-3 calls per discoverer, stopping at the sentinel or at a generated callback. Non-trivial: at least two distinct instances or a repetition before the end."),
                nsub("types", 40_000, 1_500_000, c17_types, "The same for service type discovery."),
                nsub("flood", 200, 5_000, |s, c| faults::flood(s, c, &[0, 1]), "Calls (sync or async, 1-3 per client) whose socket always has another useless packet to read, before the query is sent and up to 100000 times after it, or for ever (the receive functions of the C library are replaced for the thread). The answer comes after all that and must be used; a search without an answer must end with its time. Non-trivial: more than 1000 packets in a call."),
                nsub("many", 150, 4_000, c17_many, "600-4600 distinct instances or types in packets of 1-60 records, some of them sent again at once or later (handed out by the receive functions of the C library, replaced for the thread), then a sentinel; each must be given once, in order. All count."),
                nsub("scoped", 4_000, 100_000, |s, c| faults::scoped(s, c, &[0, 1, 2]), "Servers at the same IPv6 link-local address and port on two links to another host (network namespaces joined by two pairs of virtual devices); the query must go to the server whose scope was given, and the answer from there must be used, in 1-3 calls; all count."),
            ],
            assumptions: vec!["the domain of a PTR target is not checked (documented FIXME)", "datagrams are delivered in order on the loopback device"],
        },
        Prop {
            id: "C18",
            subs: vec![
                nsub("details", 40_000, 1_500_000, c18_details, "Instance details (sync or async, IPv4 or IPv6, any domain) from 0-16 generated datagrams with SRV, TXT, other and damaged records in any order and split, then a sentinel with both; 1-3 calls per discoverer. Non-trivial: a datagram before the sentinel."),
                nsub("flood", 150, 4_000, |s, c| faults::flood(s, c, &[2]), "Calls (sync or async, 1-3 per client) whose socket always has another useless packet to read, before the query is sent and up to 100000 times after it, or for ever (the receive functions of the C library are replaced for the thread). The answer comes after all that and must be used; a search without an answer must end with its time. Non-trivial: more than 1000 packets in a call."),
                nsub("missing", 1_500, 40_000, c18_missing, "The same, but the SRV or TXT record never comes, so that the search ends with its time; non-trivial: a datagram that could be mistaken for an answer."),
            ],
            assumptions: vec!["which of several TXT records received is used is left open", "SRV priorities are not considered (documented FIXME)"],
        },
        Prop {
            id: "C19",
            subs: vec![
                nsub("loss", 2_000, 60_000, c19_loss, "All three searches, sync and async; the server ignores the first 0-6, at times up to 40, queries (now and then answering with useless packets) and then answers; non-trivial: at least one query ignored."),
                nsub("late", 24, 600, |s, c| faults::late(s, c, &[0, 1, 2]), "8 searches at a time (sync and async) are answered 1.1-1.7 s after the query, the discovery and retransmit times are 25 s or up to Duration::MAX; all count."),
                nsub("flood", 400, 10_000, |s, c| faults::flood(s, c, &[0, 1, 2]), "Calls (sync or async, 1-3 per client) whose socket always has another useless packet to read, before the query is sent and for a while after it, or for ever (the receive functions of the C library are replaced for the thread). Either the answer comes after the query all the same and must be used, or nothing else comes, and the search must end with its time (20-90 ms). Non-trivial: more than 1000 packets in a call."),
                nsub("defaults", 24, 600, |s, c| faults::defaults(s, c, &[0, 1, 2]), "8 searches at a time whose times were never set: nobody answers, or only the second query is answered; all count."),
                nsub("end", 1_200, 40_000, c19_end, "Searches with a discovery time of 20-90 ms against a silent server or one sending useless packets every 0-3 ms without end; the call must return within 25 s and not much earlier than its time, and no query may be sent after that. Non-trivial: packets keep arriving."),
            ],
            assumptions: vec!["how far a search may exceed its time is left open up to 25 s", "useless packets may put off retransmission"],
        },
        Prop {
            id: "C20",
            subs: vec![
                nsub("listen", 10_000, 300_000, c20_listen, "A listening advertiser (sync or async) with generated registrations receives 1-40 packets, in a few cases up to 14 such rounds (queries, mutated queries, responses, garbage, repeated, empty and oversized packets) from 1-4 clients, from other source addresses and from port 5353 too, by unicast and multicast; each client must receive exactly the responses a fresh packet handler gives for its packets, in order, ended by a sentinel query. Non-trivial: at least one answered query after a packet that is no proper query."),
                nsub("many", 32, 1_000, faults::c20_many, "An advertiser (sync or async) receives 66000-140000 packets (1-6 different ones over and over, handed out by the receive functions of the C library, replaced for the thread), then some from a client, which must be answered as by a fresh packet handler; all count."),
                nsub("idle", 32, 600, faults::c20_idle, "Two advertisers (one sync, one async) get nothing at all for 0.6-3.5 s (thorough: up to 45 s), 1-2 times, and must answer 1-3 queries each time; all count."),
                nsub("link", 1_500, 50_000, share::c20_link, "A listening advertiser on one of two hosts connected by a pair of virtual devices (or on one host) receives the same kinds of packets from 1-3 clients on either host, multicast or sent to any of its addresses; each client must receive exactly, as a multiset, the responses a fresh packet handler gives. Non-trivial: an answered query from the other host."),
            ],
            assumptions: vec!["packets above 1500 bytes may be handled cut or whole", "datagrams are delivered in order on the loopback device"],
        },
        Prop {
            id: "C21",
            subs: vec![
                nsub("tap", 30_000, 1_000_000, c21_tap, "A tap receives 1-30 packets (messages with all sections and record types, damaged, cut, garbage, empty, oversized), by unicast and multicast, then a sentinel; the lines it logs at debug level and above are compared with what the reference parser reads. Non-trivial: a damaged packet followed by a message with entries."),
                nsub("many", 24, 600, faults::c21_many, "A tap receives 66000-100000 packets (1-5 different ones over and over, handed out by the receive functions of the C library, replaced for the thread) and one more; it must log each. All count."),
                nsub("idle", 32, 600, faults::c21_idle, "A tap gets nothing at all for 0.6-3.5 s (thorough: up to 45 s), 1-2 times, and must log the packets that follow; all count."),
            ],
            assumptions: vec!["messages are cut at 1500 bytes", "trace-level lines are not looked at"],
        },
    ]);
    v
}

/// How long clients under test wait where they must succeed.
const WAIT: Duration = Duration::from_secs(10);

// ---------------------------------------------------------------------------------------------
// A client call on a thread of its own.

struct Job<C, T> {
    rx: mpsc::Receiver<(C, Result<T, String>)>,
}

fn start<C: Send + 'static, T: Send + 'static>(mut c: C, f: impl FnOnce(&mut C) -> T + Send + 'static) -> Job<C, T> {
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let r = no_panic(|| f(&mut c));
        let _ = tx.send((c, r));
    });
    Job { rx }
}

impl<C, T> Job<C, T> {
    fn wait(&self, what: &str) -> Result<(C, T), String> {
        match self.rx.recv_timeout(LONG + WAIT) {
            Ok((c, Ok(t))) => Ok((c, t)),
            Ok((_, Err(p))) => Err(format!("{what}: {p}")),
            Err(_) => Err(format!("{what} did not return within {:?}", LONG + WAIT)),
        }
    }
}

fn timed_out(e: &io::Error) -> bool {
    matches!(e.kind(), io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut)
}

fn pending(sock: &UdpSocket) -> Vec<Vec<u8>> {
    let _ = sock.set_nonblocking(true);
    let mut v = Vec::new();
    while let Ok((b, _)) = net::recv(sock) {
        v.push(b);
    }
    let _ = sock.set_nonblocking(false);
    v
}

fn cut(b: &[u8]) -> &[u8] {
    &b[..b.len().min(MDNS_BUFFER_SIZE)]
}

// ---------------------------------------------------------------------------------------------
// C16

enum Resolver {
    Sync(SyncResolver),
    Async(AsyncResolver),
}

impl Resolver {
    fn new(asy: bool, a: SocketAddr) -> io::Result<Self> {
        Ok(if asy { Self::Async(future::block_on(AsyncResolver::new(a))?) } else { Self::Sync(SyncResolver::new(a)?) })
    }
    fn multicast(asy: bool, v6: bool) -> io::Result<Self> {
        Ok(match (asy, v6) {
            (true, false) => Self::Async(future::block_on(AsyncResolver::new_multicast_v4())?),
            (true, true) => Self::Async(future::block_on(AsyncResolver::new_multicast_v6())?),
            (false, false) => Self::Sync(SyncResolver::new_multicast_v4()?),
            (false, true) => Self::Sync(SyncResolver::new_multicast_v6()?),
        })
    }
    fn add(&mut self, a: SocketAddr) {
        match self {
            Self::Sync(r) => r.add_server(a),
            Self::Async(r) => r.add_server(a),
        }
    }
    fn timeout(&mut self, d: Duration) {
        match self {
            Self::Sync(r) => r.set_timeout(d),
            Self::Async(r) => r.set_timeout(d),
        }
        .expect("set_timeout")
    }
    fn resolve(&mut self, n: &str) -> io::Result<Vec<IpAddr>> {
        match self {
            Self::Sync(r) => r.resolve(n).map(|i| i.collect()),
            Self::Async(r) => async_io::block_on(async { r.resolve(n).await.map(|i| i.collect()) }),
        }
    }
    fn resolve_domain(&mut self, n: &DomainName) -> io::Result<Vec<IpAddr>> {
        match self {
            Self::Sync(r) => r.resolve_domain(n).map(|i| i.collect()),
            Self::Async(r) => async_io::block_on(async { r.resolve_domain(n).await.map(|i| i.collect()) }),
        }
    }
}

/// An address record of the resolver's responses, of this name or another one (behind a CNAME).
fn any_addr_rr(s: &mut Src, name: &Name) -> RR {
    let ip = gen_ip(s);
    let ttl = if s.chance(1, 4) { 0 } else { s.edgy32() };
    let mut rr = addr_rr(name, ip, ttl);
    rr.flush = s.chance(1, 4);
    if s.chance(1, 5) {
        let mut pool = vec![name.clone()];
        rr.name = gen_name(s, &mut pool);
    }
    rr
}

fn addr_rr(name: &Name, ip: IpAddr, ttl: u32) -> RR {
    let data = match ip {
        IpAddr::V4(a) => RData::A(a.octets()),
        IpAddr::V6(a) => RData::Aaaa(a.octets()),
    };
    RR { name: name.clone(), class: 1, flush: false, ttl, data }
}

/// A response with addresses that must be used.
fn good_response(s: &mut Src, id: u16, name: &Name) -> Vec<u8> {
    let mut m = Msg { id, flags: QR | (s.u16() & 0x07f0), ..Default::default() };
    if s.bool() {
        m.q.push(Q { name: name.clone(), qtype: 1, qclass: 1, qu: false });
    }
    if s.chance(1, 4) {
        m.rr[0].push(RR { name: name.clone(), class: 1, flush: false, ttl: 1, data: RData::Cname(vec![b"alias".to_vec()]) });
    }
    m.rr[0].push(any_addr_rr(s, name));
    if s.chance(1, 12) {
        let k = s.range(5, 60);
        for _ in 0..k {
            m.rr[0].push(addr_rr(name, gen_ip(s), 5));
        }
    }
    while s.more(m.rr[0].len(), 1, 6) {
        m.rr[0].push(any_addr_rr(s, name));
    }
    if s.chance(1, 4) {
        // addresses elsewhere do not count
        m.rr[1 + s.below(2) as usize].push(addr_rr(name, gen_ip(s), 5));
    }
    let b = gen_encoded(s, &m).bytes;
    if b.len() <= MDNS_BUFFER_SIZE {
        return b;
    }
    m.q.clear();
    m.rr = [vec![addr_rr(name, gen_ip(s), 5)], vec![], vec![]];
    encode(&m, Compress::Max).bytes
}

fn gen_resolver_packet(s: &mut Src, id: u16, name: &Name) -> Vec<u8> {
    match s.weighted(&[4, 3, 2, 3, 3, 3, 3, 4, 1, 2]) {
        0 => {
            let m = gen_response(s, id, true);
            gen_encoded(s, &m).bytes
        }
        1 => {
            let mut b = good_response(s, id, name);
            mutate(s, &mut b);
            b
        }
        2 => {
            let mut b = good_response(s, id, name);
            let l = s.below(b.len() as u64) as usize;
            b.truncate(l);
            b
        }
        3 => {
            // a query that carries addresses
            let mut b = good_response(s, id, name);
            b[2] &= 0x7f;
            b
        }
        4 => {
            let other = foreign_id(s, id);
            good_response(s, other, name)
        }
        5 => super::codec::gen_bytes(s, 80),
        6 => {
            // no address in the answer section
            let mut pool = vec![name.clone()];
            let mut m = Msg { id, flags: QR | (s.u16() & 0x07f0), ..Default::default() };
            m.q.push(Q { name: name.clone(), qtype: 28, qclass: 1, qu: false });
            while s.more(m.rr[0].len(), 1, 4) {
                let r = gen_rr(s, &mut pool, false, 0);
                if !matches!(r.data, RData::A(_) | RData::Aaaa(_) | RData::Raw(..)) {
                    m.rr[0].push(r);
                }
            }
            if s.bool() {
                m.rr[1].push(addr_rr(name, gen_ip(s), 5));
                m.rr[2].push(addr_rr(name, gen_ip(s), 5));
            }
            gen_encoded(s, &m).bytes
        }
        7 => {
            // addresses, then something malformed
            let mut m = Msg { id, flags: QR, ..Default::default() };
            m.rr[0].push(any_addr_rr(s, name));
            while s.more(m.rr[0].len(), 1, 4) {
                m.rr[0].push(any_addr_rr(s, name));
            }
            match s.below(3) {
                0 => {
                    let t = *s.pick(&[1u16, 28]);
                    let n = s.below(4) as usize;
                    m.rr[0].push(RR { name: name.clone(), class: 1, flush: false, ttl: 5, data: RData::Raw(t, vec![7; n]) });
                    gen_encoded(s, &m).bytes
                }
                1 => {
                    let mut b = gen_encoded(s, &m).bytes;
                    let l = s.range(1, 4);
                    b.truncate(b.len() - l);
                    b
                }
                _ => {
                    let mut b = gen_encoded(s, &m).bytes;
                    b[7] += 1 + s.below(3) as u8;
                    b
                }
            }
        }
        8 => {
            // too large to be received whole
            let mut m = Msg { id, flags: QR, ..Default::default() };
            for _ in 0..s.range(70, 140) {
                m.rr[0].push(any_addr_rr(s, name));
            }
            encode(&m, if s.bool() { Compress::Max } else { Compress::Never }).bytes
        }
        _ => good_response(s, id, name),
    }
}

/// Whether the resolver may take addresses from this packet.
fn may_use(b: &[u8], id: u16) -> bool {
    match model_addresses(cut(b), id) {
        Addresses::Error => false,
        Addresses::Either(v, _) | Addresses::Addrs(v, _) => !v.is_empty(),
    }
}

fn c16_check(script: &[(usize, Vec<u8>)], id: u16, got: &[IpAddr]) -> Res {
    for (i, (_, b)) in script.iter().enumerate() {
        let b = cut(b);
        match model_addresses(b, id) {
            Addresses::Error => {}
            Addresses::Either(v, o) => {
                if !got.is_empty() && is_selection(got, &v, &o) {
                    return Ok(());
                }
            }
            Addresses::Addrs(v, o) => {
                if !got.is_empty() && is_selection(got, &v, &o) {
                    return Ok(());
                }
                if o.iter().any(|x| !x) {
                    return Err(format!("resolved to {got:?}, but packet {i} is the first usable response, with {v:?}: {}", hex(b)));
                }
            }
        }
    }
    Err(format!("resolved to {got:?}, which is in no packet"))
}

fn other_family(a: SocketAddr) -> SocketAddr {
    if a.is_ipv4() {
        "[::1]:53".parse().unwrap()
    } else {
        "127.0.0.1:53".parse().unwrap()
    }
}

fn c16_resolve(s: &mut Src, ctx: &mut Ctx) -> Res {
    let v6 = s.bool() && net::have_v6();
    let asy = s.bool();
    let n = if s.chance(1, 100) { s.range(9, 120) } else { 1 + s.weighted(&[8, 6, 4, 1, 1, 1, 1, 1]) };
    ctx.class(if asy { "async" } else { "sync" });
    ctx.class(if v6 { "IPv6" } else { "IPv4" });
    ctx.class_if(n > 1, "several servers");
    ctx.note(|| format!("{} {} {n} server(s)", if asy { "async" } else { "sync" }, if v6 { "v6" } else { "v4" }));
    if s.chance(1, 16) {
        // A multicast resolver takes no further servers.
        let (mv6, sv6) = (s.bool() && net::have_v6(), s.bool());
        let mut r = Resolver::multicast(asy, mv6).map_err(|e| format!("multicast resolver: {e}"))?;
        ctx.class("add_server on a multicast resolver");
        ensure!(no_panic(|| r.add(SocketAddr::new(net::loopback(sv6), 53))).is_err(), "add_server was accepted by a multicast resolver");
    }
    let servers: Vec<(UdpSocket, SocketAddr)> = (0..n).map(|_| net::server(v6)).collect();
    let mut client = Resolver::new(asy, servers[0].1).map_err(|e| format!("resolver: {e}"))?;
    for (_, a) in &servers[1..] {
        if s.chance(1, 8) {
            ctx.class("add_server of another family");
            ensure!(no_panic(|| client.add(other_family(*a))).is_err(), "add_server accepted another address family");
        }
        client.add(*a);
    }
    if s.chance(1, 8) {
        ctx.class("add_server of another family");
        ensure!(no_panic(|| client.add(other_family(servers[0].1))).is_err(), "add_server accepted another address family");
    }
    let long = if n < 4 && s.chance(1, 120) { s.range(60, 300) } else { 0 };
    ctx.class_if(long > 0, "long use");
    ctx.class_if(n > 8, "many servers");
    let mut calls = 0;
    while calls < long || calls == 0 || s.more(calls, 1, 4) {
        calls += 1;
        ctx.steps += 1;
        ctx.nontrivial |= calls > 1;
        let kind = s.weighted(&[12, 1, if long > 0 { 0 } else { 1 }]);
        if kind == 1 {
            // An unusable host name.
            let bad = match s.below(4) {
                0 => format!("{}.local", "a".repeat(s.range(64, 300))),
                1 => "a..b".to_string(),
                2 => ".local".to_string(),
                _ => format!("host.{}", "é".repeat(40)),
            };
            ctx.class("unusable name");
            let job = start(client, move |c| c.resolve(&bad).map_err(|e| e.kind()));
            let (c, r) = job.wait("resolve")?;
            client = c;
            match r {
                Ok(v) => return Err(format!("resolving an unusable name gives {v:?}")),
                Err(k) if k == io::ErrorKind::WouldBlock || k == io::ErrorKind::TimedOut => return Err("an unusable name led to a timeout instead of being rejected".into()),
                Err(_) => {}
            }
            for (i, (sock, _)) in servers.iter().enumerate() {
                let p = pending(sock);
                ensure!(p.is_empty(), "server {i} was asked for an unusable name: {}", hex(&p[0]));
            }
            continue;
        }
        let silent = kind == 2;
        let text = s.bool();
        let name: Name = if text && s.chance(1, 8) {
            // texts that other resolvers treat specially
            name_of(s.pick(&["localhost", "127.0.0.1", "1.2.3.4", "0.0.0.0", "::1", "fe80::1%lo", "LOCALHOST", "localhost.localdomain", "host.local", "a.local", "1", "255.255.255.255", "*", "1.0.0.127.in-addr.arpa", "[::1]", "example.invalid", "x.test", "x.onion"]))
        } else if text {
            gen_plain_name(s)
        } else {
            let mut pool = Vec::new();
            gen_name(s, &mut pool)
        };
        client.timeout(if silent { Duration::from_millis(40) } else { WAIT });
        let job = if text && !name.is_empty() {
            let mut t = name.iter().map(|l| String::from_utf8_lossy(l).into_owned()).collect::<Vec<_>>().join(".");
            if s.bool() {
                t.push('.');
            }
            ensure!(uname(&name) == DomainName::from_str(&t).map_err(|e| format!("HARNESS: {e:?}"))?, "HARNESS: plain name {t}");
            start(client, move |c| c.resolve(&t))
        } else {
            let d = uname(&name);
            start(client, move |c| c.resolve_domain(&d))
        };
        let serve = (|| -> Result<Vec<(usize, Vec<u8>)>, String> {
            let mut to = Vec::new();
            let mut id = None;
            for (i, (sock, _)) in servers.iter().enumerate() {
                let (b, a) = net::recv(sock).map_err(|e| format!("server {i} received no query for {}: {e}", show_name(&name)))?;
                let qid = check_resolver_query(&b, &name).map_err(|e| format!("query to server {i}: {e}"))?;
                ensure!(*id.get_or_insert(qid) == qid, "different ids in the queries of one call");
                to.push(a);
            }
            let id = id.unwrap_or(0);
            let mut script: Vec<(usize, Vec<u8>)> = Vec::new();
            let mut k = 0;
            while s.more(k, 4, 24) {
                k += 1;
                let b = gen_resolver_packet(s, id, &name);
                if silent && may_use(&b, id) {
                    continue;
                }
                let from = s.below(n as u64) as usize;
                if s.chance(1, 8) {
                    script.push((from, b.clone()));
                }
                script.push((from, b));
            }
            if !silent {
                script.push((s.below(n as u64) as usize, good_response(s, id, &name)));
            }
            for (i, b) in &script {
                ctx.steps += 1;
                servers[*i].0.send_to(b, to[*i]).map_err(|e| format!("HARNESS: send: {e}"))?;
            }
            ctx.nontrivial |= script.len() > 1 || silent && !script.is_empty();
            ctx.note(|| format!("{} id {id}: {}", show_name(&name), script.iter().map(|(i, b)| format!("{i}<{}", hex(b))).collect::<Vec<_>>().join(" ")));
            Ok(script)
        })();
        let script = match serve {
            Ok(x) => x,
            Err(e) => return Err(e),
        };
        let (c, r) = job.wait("resolve")?;
        client = c;
        ctx.note(|| format!("-> {r:?}"));
        match (silent, r) {
            (true, Ok(v)) => return Err(format!("resolved to {v:?} from useless packets")),
            (true, Err(e)) => {
                ctx.class("timeout");
                ensure!(timed_out(&e), "no usable response leads to the error {e:?} instead of a timeout");
            }
            (false, Err(e)) => return Err(format!("error {e:?} although packet {} is a usable response", script.len() - 1)),
            (false, Ok(v)) => {
                ctx.class("resolved");
                c16_check(&script, resolver_id(), &v)?;
            }
        }
        for (i, (sock, _)) in servers.iter().enumerate() {
            let p = pending(sock);
            ensure!(p.is_empty(), "server {i} received more than one query for one call: {}", hex(&p[0]));
        }
    }
    Ok(())
}

/// The id the resolver uses (taken from its encoder).
fn resolver_id() -> u16 {
    let mut b = [0; 64];
    let q = resolver::encode_query(&mut b, &DomainName::ROOT);
    u16::from_be_bytes([q[0], q[1]])
}

// ---------------------------------------------------------------------------------------------
// Discoverers

enum Disc {
    Sync(SyncDiscoverer),
    Async(AsyncDiscoverer),
}

type Cb<'a, T> = &'a mut (dyn FnMut(&T) -> ControlFlow<()> + Send);

impl Disc {
    fn new(asy: bool, a: SocketAddr, d: DomainName) -> io::Result<Self> {
        Ok(if asy { Self::Async(future::block_on(AsyncDiscoverer::new(a, d))?) } else { Self::Sync(SyncDiscoverer::new(a, d)?) })
    }
    fn multicast(asy: bool) -> io::Result<Self> {
        Ok(if asy { Self::Async(future::block_on(AsyncDiscoverer::new_multicast_v4())?) } else { Self::Sync(SyncDiscoverer::new_multicast_v4()?) })
    }
    fn times(&mut self, discovery: Duration, retransmit: Duration) {
        match self {
            Self::Sync(d) => d.set_discovery_timeout(discovery).and_then(|_| d.set_retransmit_timeout(retransmit)),
            Self::Async(d) => d.set_discovery_timeout(discovery).and_then(|_| d.set_retransmit_timeout(retransmit)),
        }
        .expect("set timeouts")
    }
    fn instances(&mut self, s: &Service, cb: Cb<'_, ServiceInstance>) -> io::Result<()> {
        match self {
            Self::Sync(d) => d.discover_instances(s, cb),
            Self::Async(d) => async_io::block_on(d.discover_instances(s, cb)),
        }
    }
    fn types(&mut self, cb: Cb<'_, Service>) -> io::Result<()> {
        match self {
            Self::Sync(d) => d.discover_service_types(cb),
            Self::Async(d) => async_io::block_on(d.discover_service_types(cb)),
        }
    }
    fn details(&mut self, i: &ServiceInstance) -> io::Result<InstanceDetails> {
        match self {
            Self::Sync(d) => d.load_instance_details(i),
            Self::Async(d) => async_io::block_on(d.load_instance_details(i)),
        }
    }
}

/// A service type or instance: instance name (empty for a type), service name, TCP.
type Id = (Label, Label, bool);

fn id_of_instance(i: &ServiceInstance) -> Id {
    (i.instance_name().as_bytes().to_vec(), i.service_name().as_bytes().to_vec(), i.service_transport() == ServiceTransport::TCP)
}
fn id_of_service(s: &Service) -> Id {
    (vec![], s.name().as_bytes().to_vec(), s.transport() == ServiceTransport::TCP)
}
fn id_of_target(n: &Name, types: bool) -> Option<Id> {
    if types {
        model_service(n).map(|(s, t)| (vec![], s, t == ServiceTransport::TCP))
    } else {
        model_instance(n).map(|(i, s, t)| (i, s, t == ServiceTransport::TCP))
    }
}
fn show_id(i: &Id) -> String {
    format!("{}.{}.{}", i.0.escape_ascii(), i.1.escape_ascii(), if i.2 { "_tcp" } else { "_udp" })
}

fn transport(tcp: bool) -> ServiceTransport {
    if tcp {
        ServiceTransport::TCP
    } else {
        ServiceTransport::Other
    }
}
fn tlab(tcp: bool) -> Label {
    if tcp {
        b"_tcp".to_vec()
    } else {
        b"_udp".to_vec()
    }
}

fn gen_domain(s: &mut Src) -> Name {
    match s.weighted(&[4, 3, 1]) {
        0 => vec![b"local".to_vec()],
        1 => {
            let mut d = gen_plain_name(s);
            while d.iter().map(|l| l.len() + 1).sum::<usize>() > 100 {
                d.pop();
            }
            d
        }
        _ => vec![],
    }
}

/// PTR targets to choose from: services, instances, near misses.
fn gen_targets(s: &mut Src, domain: &Name, types: bool) -> Vec<Name> {
    let mut v: Vec<Name> = Vec::new();
    let svc = gen_svc_label(s);
    let tcp = s.bool();
    if s.chance(1, 8) {
        // many alike
        let n = s.range(20, 300);
        for i in 0..n {
            let mut n: Name = vec![];
            let mut l = svc.clone();
            l.truncate(40);
            if types {
                l.extend(format!("{i}").bytes());
            } else {
                n.push(format!("i{i}").into_bytes());
            }
            n.extend([l, tlab(tcp), b"local".to_vec()]);
            v.push(n);
        }
        return v;
    }
    while v.len() < 2 || s.more(v.len(), 3, 8) {
        let mut n: Name = vec![];
        if s.chance(if types { 1 } else { 6 }, 8) {
            n.push(if s.chance(1, 3) { b"inst".to_vec() } else { gen_label(s) });
        }
        n.push(if s.chance(if types { 1 } else { 2 }, 3) { svc.clone() } else { gen_svc_label(s) });
        n.push(tlab(if s.chance(2, 3) { tcp } else { !tcp }));
        if s.chance(7, 8) {
            n.extend(if domain.is_empty() || s.chance(1, 4) { vec![b"local".to_vec()] } else { domain.clone() });
        }
        if s.chance(1, 5) && v.iter().any(|n| !n.is_empty()) {
            // an earlier one with one byte or label changed
            n = s.pick(&v).clone();
            if n.is_empty() {
                n.push(b"x".to_vec());
            }
            let i = s.below(n.len() as u64) as usize;
            match s.below(3) {
                0 => {
                    n.remove(i);
                }
                1 => {
                    let k = s.below(n[i].len() as u64) as usize;
                    n[i][k] ^= 1 << s.below(8);
                }
                _ => n.insert(i, gen_label(s)),
            }
        }
        while n.iter().map(|l| l.len() + 1).sum::<usize>() + 1 > 255 {
            n.pop();
        }
        v.push(n);
    }
    v
}

/// A datagram a discoverer may receive. `make` gives the records of interest.
fn gen_disc_packet(s: &mut Src, id: u16, owner: &Name, make: &mut dyn FnMut(&mut Src) -> RData) -> Vec<u8> {
    let k = s.weighted(&[10, 3, 1, 1, 1, 2]);
    match k {
        2 => super::codec::gen_bytes(s, 80),
        5 => {
            let m = gen_response(s, id, true);
            gen_encoded(s, &m).bytes
        }
        _ => {
            let mut pool = vec![owner.clone()];
            let mut m = Msg { id, flags: QR | (s.u16() & 0x07f0), ..Default::default() };
            if s.bool() {
                m.q.push(Q { name: owner.clone(), qtype: 12, qclass: 1, qu: false });
            }
            while m.rr[0].is_empty() || s.more(m.rr[0].len(), 3, 10) {
                let r = match s.weighted(&[6, 2, 1]) {
                    0 => RR { name: owner.clone(), class: 1, flush: s.chance(1, 4), ttl: s.edgy32(), data: make(s) },
                    1 => gen_rr(s, &mut pool, true, 0),
                    _ => {
                        let n = s.range(0, 6);
                        RR { name: owner.clone(), class: 1, flush: false, ttl: 9, data: RData::Raw(*s.pick(&SUPPORTED), s.bytes(n)) }
                    }
                };
                m.rr[0].push(r);
            }
            if s.chance(1, 10) {
                let n = s.range(5, 70);
                for _ in 0..n {
                    let d = make(s);
                    m.rr[0].push(RR { name: owner.clone(), class: 1, flush: false, ttl: 120, data: d });
                }
            }
            while s.chance(1, 4) {
                // further sections do not count
                let d = make(s);
                m.rr[1 + s.below(2) as usize].push(RR { name: owner.clone(), class: 1, flush: false, ttl: 1, data: d });
                if m.rr[1].len() + m.rr[2].len() > 3 {
                    break;
                }
            }
            let mut b = gen_encoded(s, &m).bytes;
            match k {
                1 => {
                    mutate(s, &mut b);
                }
                3 => b[2] &= 0x7f,
                4 => {
                    let l = s.below(b.len() as u64 + 1) as usize;
                    b.truncate(l);
                }
                _ => {}
            }
            b
        }
    }
}

fn response(id: u16, owner: &Name, data: &[RData]) -> Vec<u8> {
    let mut m = Msg { id, flags: QR | AA, ..Default::default() };
    for d in data {
        m.rr[0].push(RR { name: owner.clone(), class: 1, flush: true, ttl: 7, data: d.clone() });
    }
    encode(&m, Compress::Max).bytes
}

struct Seen {
    calls: Vec<Id>,
    after: bool,
}

/// Runs a search whose callback breaks at `stop` calls or at `last`.
fn search(d: &mut Disc, types: bool, svc: &Id, stop: Option<usize>, last: &Id) -> (io::Result<()>, Seen) {
    let mut seen = Seen { calls: vec![], after: false };
    let mut done = false;
    let mut step = |id: Id| {
        if done {
            seen.after = true;
        }
        seen.calls.push(id.clone());
        if stop == Some(seen.calls.len()) || id == *last {
            done = true;
            ControlFlow::Break(())
        } else {
            ControlFlow::Continue(())
        }
    };
    let r = if types {
        d.types(&mut |s| step(id_of_service(s)))
    } else {
        d.instances(&Service::new(ulabel(&svc.1), transport(svc.2)), &mut |i| step(id_of_instance(i)))
    };
    (r, seen)
}

/// Compares the callbacks with the PTR targets received, in order.
fn check_calls(script: &[Vec<u8>], types: bool, stop: Option<usize>, last: &Id, seen: &Seen) -> Result<(usize, bool), String> {
    ensure!(!seen.after, "the callback was called again after it asked to stop: {:?}", seen.calls.iter().map(show_id).collect::<Vec<_>>());
    let mut had: BTreeSet<Id> = BTreeSet::new();
    let mut repeat = false;
    let mut p = 0;
    let all = || seen.calls.iter().map(show_id).collect::<Vec<_>>().join(", ");
    for b in script {
        for (d, opt) in model_handed(cut(b)) {
            let RData::Ptr(n) = d else { continue };
            let Some(id) = id_of_target(&n, types) else { continue };
            if had.contains(&id) {
                repeat = true;
                continue;
            }
            if seen.calls.get(p) != Some(&id) {
                if opt {
                    continue;
                }
                return Err(format!("call {p} should be for {}; all calls: {}", show_id(&id), all()));
            }
            p += 1;
            had.insert(id.clone());
            if stop == Some(p) || id == *last {
                ensure!(seen.calls.len() == p, "more calls than expected: {}", all());
                return Ok((p, repeat));
            }
        }
    }
    Err(format!("the search ended before its end was received; calls: {}", all()))
}

fn c17_instances(s: &mut Src, ctx: &mut Ctx) -> Res {
    c17(s, ctx, false)
}
fn c17_types(s: &mut Src, ctx: &mut Ctx) -> Res {
    c17(s, ctx, true)
}

fn c17(s: &mut Src, ctx: &mut Ctx, types: bool) -> Res {
    let v6 = s.bool() && net::have_v6();
    let asy = s.bool();
    ctx.class(if asy { "async" } else { "sync" });
    let domain = gen_domain(s);
    let (sock, addr) = net::server(v6);
    let mut client = Disc::new(asy, addr, uname(&domain)).map_err(|e| format!("discoverer: {e}"))?;
    client.times(WAIT, WAIT);
    ctx.note(|| format!("{} {} domain {}", if asy { "async" } else { "sync" }, if v6 { "v6" } else { "v4" }, show_name(&domain)));
    let targets = gen_targets(s, &domain, types);
    let long = if s.chance(1, 400) { s.range(60, 300) } else { 0 };
    ctx.class_if(long > 0, "long use");
    let mut calls = 0;
    while calls < long || calls == 0 || s.more(calls, 1, 3) {
        calls += 1;
        ctx.steps += 1;
        let svc: Id = (vec![], gen_svc_label(s), s.bool());
        let last: Id = (if types { vec![] } else { format!("sentinel-{calls}").into_bytes() }, format!("_end-{calls}").into_bytes(), true);
        let stop = if s.chance(1, 3) { Some(s.range(1, 4)) } else { None };
        let (svc2, last2) = (svc.clone(), last.clone());
        let job = start(client, move |d| search(d, types, &svc2, stop, &last2));
        let mut owner: Name = if types { name_of("_services._dns-sd._udp") } else { vec![svc.1.clone(), tlab(svc.2)] };
        owner.extend(domain.iter().cloned());
        let (b, to) = net::recv(&sock).map_err(|e| format!("no query received: {e}"))?;
        let id = check_discovery_query(&b, &owner, &[12]).map_err(|e| format!("query: {e}"))?;
        let mut script: Vec<Vec<u8>> = Vec::new();
        while s.more(script.len(), 4, 24) {
            if !script.is_empty() && s.chance(1, 8) {
                // sent again
                let b = s.pick(&script).clone();
                script.push(b);
                continue;
            }
            let i = if s.chance(1, 8) { foreign_id(s, id) } else { id };
            script.push(gen_disc_packet(s, i, &owner, &mut |s| RData::Ptr(s.pick(&targets).clone())));
        }
        let mut end = if types { vec![] } else { vec![last.0.clone()] };
        end.extend([last.1.clone(), b"_tcp".to_vec(), b"local".to_vec()]);
        script.push(response(id, &owner, &[RData::Ptr(end)]));
        for b in &script {
            ctx.steps += 1;
            sock.send_to(b, to).map_err(|e| format!("HARNESS: send: {e}"))?;
        }
        let (c, (r, seen)) = job.wait("discovery")?;
        client = c;
        ctx.note(|| format!("{}: {} -> {r:?} {}", show_name(&owner), script.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" "), seen.calls.iter().map(show_id).collect::<Vec<_>>().join(", ")));
        ensure!(r.is_ok(), "discovery failed: {r:?}");
        let (found, repeat) = check_calls(&script, types, stop, &last, &seen).map_err(|e| format!("{e}; packets {}", script.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" ")))?;
        ctx.nontrivial |= found > 2 || repeat;
        ctx.class_if(found > 3, "four or more found");
        ctx.class_if(repeat, "repetition");
        ctx.class_if(stop.is_some_and(|k| k == found), "stopped early");
        ctx.class_if(calls > 1, "further call");
        pending(&sock);
    }
    Ok(())
}

/// More of them than fit into a socket's buffer: the packets are handed out by `inject`.
fn c17_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    let types = s.bool();
    let v6 = s.bool() && net::have_v6();
    let asy = s.bool();
    ctx.class(if asy { "async" } else { "sync" });
    ctx.class(if types { "types" } else { "instances" });
    let domain = gen_domain(s);
    let (sock, addr) = net::server(v6);
    let mut client = Disc::new(asy, addr, uname(&domain)).map_err(|e| format!("discoverer: {e}"))?;
    client.times(LONG, LONG);
    let n = *s.pick(&[600usize, 1100, 2100, 4200]) + s.below(400) as usize;
    let mut svc: Id = (vec![], gen_svc_label(s), s.bool());
    svc.1.truncate(30);
    let last: Id = (if types { vec![] } else { b"sentinel".to_vec() }, b"_end".to_vec(), true);
    let mut owner: Name = if types { name_of("_services._dns-sd._udp") } else { vec![svc.1.clone(), tlab(svc.2)] };
    owner.extend(domain.iter().cloned());
    let target = |i: usize| -> Name {
        let mut t: Name = Vec::new();
        if types {
            t.push(format!("_s{i}").into_bytes());
        } else {
            t.push(format!("i{i}").into_bytes());
            t.push(svc.1.clone());
        }
        t.push(tlab(svc.2));
        t.extend(if domain.is_empty() { vec![b"local".to_vec()] } else { domain.clone() });
        t
    };
    // Packets of 1-60 of them, some sent again at once or much later.
    let mut script: Vec<Vec<u8>> = Vec::new();
    let mut i = 0;
    let mut again = 0;
    while i < n {
        let k = s.range(1, 60).min(n - i);
        let mut b = response(1, &owner, &(i..i + k).map(|i| RData::Ptr(target(i))).collect::<Vec<_>>());
        let mut k = k;
        while b.len() > MDNS_BUFFER_SIZE {
            k = (k / 2).max(1);
            b = response(1, &owner, &(i..i + k).map(|i| RData::Ptr(target(i))).collect::<Vec<_>>());
        }
        i += k;
        script.push(b);
        while s.chance(1, 6) {
            let k = s.below(script.len() as u64) as usize;
            script.push(script[k].clone());
            again += 1;
        }
    }
    if s.bool() {
        let k = script.len() as u64;
        for _ in 0..s.range(1, 200) {
            script.push(script[s.below(k) as usize].clone());
            again += 1;
        }
    }
    let mut end = if types { vec![] } else { vec![last.0.clone()] };
    end.extend([last.1.clone(), b"_tcp".to_vec(), b"local".to_vec()]);
    script.push(response(1, &owner, &[RData::Ptr(end)]));
    ctx.note(|| format!("{} {} under {}: {n} in {} packets, {again} of them sent again", if asy { "async" } else { "sync" }, if types { "types" } else { "instances" }, show_name(&owner), script.len()));
    ctx.steps += script.len() as u64;
    ctx.nontrivial = true;
    let f = inject::Flood { packets: script.clone(), from: addr, after_send: None, limit: LONG, once: true, total: None, ..Default::default() };
    let (svc2, last2) = (svc.clone(), last.clone());
    let job = start(client, move |d| inject::flood(f, || search(d, types, &svc2, None, &last2)));
    let (_, ((r, seen), _)) = job.wait("discovery")?;
    drop(sock);
    ensure!(r.is_ok(), "discovery failed: {r:?}");
    let mut want: Vec<Id> = (0..n).filter_map(|i| id_of_target(&target(i), types)).collect();
    ensure!(want.len() == n, "HARNESS: targets");
    want.push(last);
    for (k, w) in want.iter().enumerate() {
        ensure!(seen.calls.get(k) == Some(w), "call {k} is {:?} instead of {}", seen.calls.get(k).map(show_id), show_id(w));
    }
    ensure!(seen.calls.len() == want.len() && !seen.after, "{} calls instead of {}", seen.calls.len(), want.len());
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C18

#[derive(Debug)]
struct Got {
    host: Name,
    port: u16,
    txt: Txt,
}

fn got_details(d: InstanceDetails) -> Got {
    Got { host: mname(d.host()), port: d.port(), txt: txt_view(d.txt_records()) }
}

fn sorted(t: &[Vec<u8>]) -> Txt {
    let mut v = txt_model(t);
    v.sort();
    v
}

/// A SRV or TXT record.
fn gen_detail(s: &mut Src) -> RData {
    if s.bool() {
        let mut pool = Vec::new();
        RData::Srv(s.edgy16(), s.edgy16(), s.edgy16(), gen_name(s, &mut pool))
    } else {
        let mut v = gen_kv(s, true, 4);
        if v.is_empty() {
            v.push(vec![]);
        }
        RData::Txt(v)
    }
}

/// What loading details may give: a SRV, the TXT records before the end, whether the end is reached.
fn model_details(script: &[Vec<u8>]) -> (Option<(Name, u16)>, Vec<Txt>, bool) {
    let mut srv = None;
    let mut txts = Vec::new();
    for b in script {
        for (d, _) in model_handed(cut(b)) {
            match d {
                RData::Srv(_, _, p, h) => {
                    srv.get_or_insert((h, p));
                }
                RData::Txt(t) => txts.push(sorted(&t)),
                _ => {}
            }
            if srv.is_some() && !txts.is_empty() {
                return (srv, txts, true);
            }
        }
    }
    (srv, txts, false)
}

fn optional(b: &[u8]) -> bool {
    model_handed(cut(b)).iter().any(|x| x.1)
}

fn has(b: &[u8], f: impl Fn(&RData) -> bool) -> bool {
    model_handed(cut(b)).iter().any(|x| f(&x.0))
}

fn check_detail_query(b: &[u8], name: &Name) -> Result<u16, String> {
    check_discovery_query(b, name, &[33, 16]).or_else(|e| check_discovery_query(b, name, &[16, 33]).map_err(|_| e))
}

fn gen_instance(s: &mut Src) -> Id {
    let mut l = gen_label(s);
    l.truncate(40);
    let mut v = gen_svc_label(s);
    v.truncate(40);
    (l, v, s.bool())
}

fn uinstance(i: &Id) -> ServiceInstance {
    ServiceInstance::new(ulabel(&i.0), ulabel(&i.1), transport(i.2))
}

fn c18_details(s: &mut Src, ctx: &mut Ctx) -> Res {
    let v6 = s.bool() && net::have_v6();
    let asy = s.bool();
    ctx.class(if asy { "async" } else { "sync" });
    let domain = gen_domain(s);
    let (sock, addr) = net::server(v6);
    let mut client = Disc::new(asy, addr, uname(&domain)).map_err(|e| format!("discoverer: {e}"))?;
    client.times(WAIT, WAIT);
    ctx.note(|| format!("{} {} domain {}", if asy { "async" } else { "sync" }, if v6 { "v6" } else { "v4" }, show_name(&domain)));
    let long = if s.chance(1, 400) { s.range(60, 300) } else { 0 };
    ctx.class_if(long > 0, "long use");
    let mut calls = 0;
    while calls < long || calls == 0 || s.more(calls, 1, 3) {
        calls += 1;
        ctx.steps += 1;
        let inst = gen_instance(s);
        let ui = uinstance(&inst);
        let job = start(client, move |d| d.details(&ui).map(got_details));
        let mut owner: Name = vec![inst.0.clone(), inst.1.clone(), tlab(inst.2)];
        owner.extend(domain.iter().cloned());
        let (b, to) = net::recv(&sock).map_err(|e| format!("no query received: {e}"))?;
        let id = check_detail_query(&b, &owner).map_err(|e| format!("query: {e}"))?;
        let mut script: Vec<Vec<u8>> = Vec::new();
        let mut k = 0;
        // Sometimes one of the two records is kept back, so that the other is waited for.
        let hold = s.weighted(&[2, 2, 2]);
        while s.more(k, 2, 16) {
            k += 1;
            let i = if s.chance(1, 8) { foreign_id(s, id) } else { id };
            let b = gen_disc_packet(s, i, &owner, &mut gen_detail);
            let held = match hold {
                1 => has(&b, |d| matches!(d, RData::Srv(..))),
                2 => has(&b, |d| matches!(d, RData::Txt(..))),
                _ => false,
            };
            if !optional(&b) && !held {
                script.push(b);
            }
        }
        let srv = RData::Srv(0, 0, 7000 + calls as u16, vec![b"sentinel".to_vec(), b"local".to_vec()]);
        let txt = RData::Txt(vec![format!("sentinel={calls}").into_bytes()]);
        ctx.nontrivial |= !script.is_empty();
        match s.below(4) {
            0 => script.push(response(id, &owner, &[srv, txt])),
            1 => script.push(response(id, &owner, &[txt, srv])),
            2 => script.extend([response(id, &owner, &[srv]), response(id, &owner, &[txt])]),
            _ => script.extend([response(id, &owner, &[txt]), response(id, &owner, &[srv])]),
        }
        for b in &script {
            ctx.steps += 1;
            sock.send_to(b, to).map_err(|e| format!("HARNESS: send: {e}"))?;
        }
        let (c, r) = job.wait("load_instance_details")?;
        client = c;
        let packets = || script.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" ");
        ctx.note(|| format!("{}: {} -> {r:?}", show_name(&owner), packets()));
        let got = r.map_err(|e| format!("error {e:?} although both records were sent: {}", packets()))?;
        let (srv, txts, end) = model_details(&script);
        let srv = srv.unwrap_or_default();
        ensure!(end, "HARNESS: no end in the script");
        ensure!(got.host == srv.0 && got.port == srv.1, "host and port are {}:{}, those of the first SRV record are {}:{}; packets {}", show_name(&got.host), got.port, show_name(&srv.0), srv.1, packets());
        ensure!(txts.contains(&got.txt), "metadata is {:?}, received was {txts:?}; packets {}", got.txt, packets());
        ctx.class_if(got.port < 7000 || got.port > 7003, "early SRV");
        ctx.class_if(calls > 1, "further call");
        pending(&sock);
    }
    Ok(())
}

fn c18_missing(s: &mut Src, ctx: &mut Ctx) -> Res {
    let v6 = s.bool() && net::have_v6();
    let asy = s.bool();
    ctx.class(if asy { "async" } else { "sync" });
    let domain = gen_domain(s);
    let no_srv = s.bool();
    let inst = gen_instance(s);
    let mut owner: Name = vec![inst.0.clone(), inst.1.clone(), tlab(inst.2)];
    owner.extend(domain.iter().cloned());
    let id = 12345;
    let mut script: Vec<Vec<u8>> = Vec::new();
    let mut k = 0;
    while s.more(k, 3, 12) {
        k += 1;
        let b = gen_disc_packet(s, id, &owner, &mut |s| loop {
            let d = gen_detail(s);
            if matches!(d, RData::Srv(..)) != no_srv || s.exhausted() {
                return d;
            }
        });
        let out = if no_srv { has(&b, |d| matches!(d, RData::Srv(..))) } else { has(&b, |d| matches!(d, RData::Txt(..))) };
        if !optional(&b) && !out {
            script.push(b);
        }
    }
    let (srv, txts, _) = model_details(&script);
    ctx.nontrivial = srv.is_some() || !txts.is_empty();
    ctx.class(if srv.is_some() { "SRV only" } else if !txts.is_empty() { "TXT only" } else { "neither" });
    ctx.note(|| format!("{} {} {}: {}", if asy { "async" } else { "sync" }, if v6 { "v6" } else { "v4" }, show_name(&owner), script.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" ")));
    let mut err = String::new();
    // The datagrams may come too late for a short search.
    for ms in [40u64, 400, 3000] {
        ctx.steps += 1;
        let (sock, addr) = net::server(v6);
        let mut client = Disc::new(asy, addr, uname(&domain)).map_err(|e| format!("discoverer: {e}"))?;
        client.times(Duration::from_millis(ms), Duration::from_millis(15));
        let ui = uinstance(&inst);
        let job = start(client, move |d| d.details(&ui).map(got_details));
        let (b, to) = net::recv(&sock).map_err(|e| format!("no query received: {e}"))?;
        check_detail_query(&b, &owner).map_err(|e| format!("query: {e}"))?;
        for b in &script {
            sock.send_to(b, to).map_err(|e| format!("HARNESS: send: {e}"))?;
        }
        let (_, r) = job.wait("load_instance_details")?;
        ctx.note(|| format!("-> {r:?}"));
        err = match (&srv, r) {
            (None, Err(e)) if timed_out(&e) => return Ok(()),
            (None, r) => return Err(format!("{r:?} although no SRV record was received, a timeout is due")),
            (Some((h, p)), Ok(g)) => {
                ensure!(g.host == *h && g.port == *p, "host and port are {}:{}, those of the first SRV record are {}:{p}", show_name(&g.host), g.port, show_name(h));
                ensure!(g.txt.is_empty(), "metadata is {:?}, but no TXT record was received", g.txt);
                return Ok(());
            }
            (Some(_), Err(e)) => format!("error {e:?} although a SRV record was received"),
        };
    }
    Err(err)
}

// ---------------------------------------------------------------------------------------------
// C19

/// A packet that answers nothing.
fn gen_useless(s: &mut Src, owner: &Name, details: bool) -> Vec<u8> {
    for _ in 0..4 {
        let b = match s.below(4) {
            0 => super::codec::gen_bytes(s, 60),
            1 => {
                let mut b = response(12345, owner, &[RData::Ptr(name_of("x._y._tcp.local")), RData::Srv(0, 0, 1, vec![])]);
                b[2] &= 0x7f;
                b
            }
            2 => response(12345, owner, &[RData::A([1, 2, 3, 4]), RData::Ptr(name_of("x._y.local"))]),
            _ => {
                let m = gen_response(s, 12345, true);
                gen_encoded(s, &m).bytes
            }
        };
        if !has(&b, |d| if details { matches!(d, RData::Srv(..) | RData::Txt(..)) } else { matches!(d, RData::Ptr(n) if model_service(n).is_some() || model_instance(n).is_some()) }) {
            return b;
        }
    }
    vec![0; 12]
}

/// One of the three searches: 0 instances, 1 types, 2 details.
struct Found {
    calls: Vec<Id>,
    details: Option<Got>,
    result: io::Result<()>,
    took: Duration,
}

fn run_search(d: &mut Disc, what: usize, id: &Id, last: &Id) -> Found {
    let t0 = Instant::now();
    if what == 2 {
        let (details, result) = match d.details(&uinstance(id)) {
            Ok(x) => (Some(got_details(x)), Ok(())),
            Err(e) => (None, Err(e)),
        };
        return Found { calls: vec![], details, result, took: t0.elapsed() };
    }
    let (result, seen) = search(d, what == 1, id, None, last);
    Found { calls: seen.calls, details: None, result, took: t0.elapsed() }
}

fn owner_of(what: usize, id: &Id, domain: &Name) -> Name {
    let mut o = match what {
        0 => vec![id.1.clone(), tlab(id.2)],
        1 => name_of("_services._dns-sd._udp"),
        _ => vec![id.0.clone(), id.1.clone(), tlab(id.2)],
    };
    o.extend(domain.iter().cloned());
    o
}

fn check_what_query(b: &[u8], what: usize, owner: &Name) -> Result<u16, String> {
    if what == 2 {
        check_detail_query(b, owner)
    } else {
        check_discovery_query(b, owner, &[12])
    }
}

fn c19_loss(s: &mut Src, ctx: &mut Ctx) -> Res {
    let v6 = s.bool() && net::have_v6();
    let asy = s.bool();
    let what = s.below(3) as usize;
    let many = s.chance(1, 16);
    let lots = s.chance(1, 60);
    let many = many || lots;
    let lost = if lots { s.range(100, 320) } else if many { s.range(14, 40) } else { s.below(7) as usize };
    let domain = gen_domain(s);
    let id = gen_instance(s);
    let ms = if lots { 2 } else if many { 4 } else { *s.pick(&[8u64, 4, 12, 20]) };
    ctx.class(if asy { "async" } else { "sync" });
    ctx.class(["instances", "types", "details"][what]);
    ctx.nontrivial = lost > 0;
    ctx.note(|| format!("{} {} search {what} for {} in {}, {lost} lost, retransmission after {ms} ms", if asy { "async" } else { "sync" }, if v6 { "v6" } else { "v4" }, show_id(&id), show_name(&domain)));
    let (sock, addr) = net::server(v6);
    let mut client = Disc::new(asy, addr, uname(&domain)).map_err(|e| format!("discoverer: {e}"))?;
    client.times(LONG, Duration::from_millis(ms));
    let last: Id = (if what == 1 { vec![] } else { b"end".to_vec() }, b"_end".to_vec(), true);
    let (id2, last2) = (id.clone(), last.clone());
    let started = Instant::now();
    let job = start(client, move |d| run_search(d, what, &id2, &last2));
    let owner = owner_of(what, &id, &domain);
    let mut first: Option<(Vec<u8>, SocketAddr)> = None;
    let mut useless = 0;
    for k in 0..=lost {
        ctx.steps += 1;
        let (b, a) = net::recv(&sock).map_err(|e| format!("query {k} was not received: {e}"))?;
        check_what_query(&b, what, &owner).map_err(|e| format!("query {k}: {e}"))?;
        match &first {
            None => first = Some((b, a)),
            Some((f, fa)) => {
                ensure!(*f == b, "query {k} differs from the first: {} and {}", hex(&b), hex(f));
                ensure!(*fa == a, "query {k} comes from {a}, the first from {fa}");
            }
        }
        if k < lost {
            while s.chance(1, 4) && useless < 5 {
                useless += 1;
                let b = gen_useless(s, &owner, what == 2);
                ctx.note(|| format!("useless {}", hex(&b)));
                sock.send_to(&b, a).map_err(|e| format!("HARNESS: send: {e}"))?;
            }
        }
    }
    let least = Duration::from_millis(ms) * lost as u32 * 2 / 5;
    ensure!(started.elapsed() >= least, "{lost} retransmissions after {:?}, with a retransmission time of {ms} ms", started.elapsed());
    let (b, to) = first.unwrap();
    let qid = u16::from_be_bytes([b[0], b[1]]);
    let answer = match what {
        2 => response(qid, &owner, &[RData::Srv(0, 0, 4711, name_of("h.local")), RData::Txt(vec![b"k=v".to_vec()])]),
        1 => response(qid, &owner, &[RData::Ptr(name_of("_end._tcp.local"))]),
        _ => response(qid, &owner, &[RData::Ptr(name_of("end._end._tcp.local"))]),
    };
    sock.send_to(&answer, to).map_err(|e| format!("HARNESS: send: {e}"))?;
    let (_, f) = job.wait("the search")?;
    ensure!(f.result.is_ok(), "error {:?} although the query was answered in the end", f.result);
    match f.details {
        Some(g) => ensure!(g.host == name_of("h.local") && g.port == 4711 && g.txt == vec![("k".to_string(), Some(b"v".to_vec()))], "details are {g:?}"),
        None => ensure!(what != 2 && f.calls == vec![last], "found {:?}", f.calls.iter().map(show_id).collect::<Vec<_>>()),
    }
    Ok(())
}

fn c19_end(s: &mut Src, ctx: &mut Ctx) -> Res {
    let v6 = s.bool() && net::have_v6();
    let asy = s.bool();
    let what = s.below(3) as usize;
    let domain = gen_domain(s);
    let id = gen_instance(s);
    let ms = s.range(20, 90) as u64;
    let rt = s.range(4, ms as usize) as u64;
    let busy = s.chance(3, 5);
    // Ending half way between two repetitions.
    let (ms, rt) = if busy || s.chance(1, 4) {
        (ms, rt)
    } else {
        let rt = s.range(30, 45) as u64;
        (rt * s.below(3) + rt / 2, rt)
    };
    let gap = s.below(4);
    let dup = s.chance(1, 3);
    ctx.class(if asy { "async" } else { "sync" });
    ctx.class(["instances", "types", "details"][what]);
    ctx.class(if busy { "packets without end" } else { "silence" });
    ctx.nontrivial = busy;
    ctx.note(|| format!("{} {} search {what} for {} in {}, {ms} ms, retransmission after {rt} ms, busy {busy} every {gap} ms", if asy { "async" } else { "sync" }, if v6 { "v6" } else { "v4" }, show_id(&id), show_name(&domain)));
    let (sock, addr) = net::server(v6);
    let mut client = Disc::new(asy, addr, uname(&domain)).map_err(|e| format!("discoverer: {e}"))?;
    client.times(Duration::from_millis(ms), Duration::from_millis(rt));
    let last: Id = (b"never".to_vec(), b"_never".to_vec(), true);
    let (id2, last2) = (id.clone(), last.clone());
    let owner = owner_of(what, &id, &domain);
    let mut packets: Vec<Vec<u8>> = vec![gen_useless(s, &owner, what == 2)];
    while s.more(packets.len(), 3, 8) {
        packets.push(gen_useless(s, &owner, what == 2));
    }
    if dup && what != 2 {
        // always the same answer
        packets.push(response(12345, &owner, &[RData::Ptr(name_of("i._s._tcp.local"))]));
        ctx.class("always the same answer");
    } else if dup {
        packets.push(response(12345, &owner, &[RData::Txt(vec![b"k=v".to_vec()])]));
        ctx.class("TXT again and again");
    }
    let job = start(client, move |d| run_search(d, what, &id2, &last2));
    let (b, to) = net::recv(&sock).map_err(|e| format!("no query received: {e}"))?;
    check_what_query(&b, what, &owner).map_err(|e| format!("query: {e}"))?;
    let t0 = Instant::now();
    let mut k = 0;
    let f = loop {
        match job.rx.try_recv() {
            Ok((_, Ok(f))) => break f,
            Ok((_, Err(p))) => return Err(p),
            Err(mpsc::TryRecvError::Disconnected) => return Err("the search thread died".into()),
            Err(mpsc::TryRecvError::Empty) => {}
        }
        ensure!(t0.elapsed() < LONG, "the search goes on after {:?}, its time is {ms} ms; packets {}", t0.elapsed(), packets.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" "));
        if busy {
            let _ = sock.send_to(&packets[k % packets.len()], to);
            k += 1;
        }
        std::thread::sleep(if gap == 0 { Duration::from_micros(200) } else { Duration::from_millis(gap) });
    };
    ctx.steps += k as u64;
    let wrong = f.calls.iter().any(|c| c.1 != b"_s" && c.1 != b"_end" && !dup);
    match (what, &f.result) {
        (2, Err(e)) if timed_out(e) => {}
        (0 | 1, Ok(())) => {}
        (_, r) => return Err(format!("the search ended with {r:?} and {:?}", f.details)),
    }
    ensure!(f.calls.len() <= 2 && !wrong, "found {:?} in useless packets", f.calls.iter().map(show_id).collect::<Vec<_>>());
    ensure!(f.took >= Duration::from_millis(ms) * 4 / 5, "the search took {:?}, its time is {ms} ms", f.took);
    // Meanwhile only repetitions of the query were sent, the last one before the time was over.
    let p = pending(&sock);
    if !busy && ms % rt <= rt * 2 / 3 && rt >= 30 {
        ctx.class("counted");
        ensure!(p.len() as u64 <= ms / rt, "{} queries within {ms} ms, with {rt} ms between them: nobody waits for the answer to the last one", p.len() + 1);
    }
    for q in p {
        ensure!(q == b, "query {} is followed by {}", hex(&b), hex(&q));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Daemons

static HANDLER: Once = Once::new();

extern "C" fn nothing(_: libc::c_int) {}

/// SIGUSR1 interrupts what a thread waits for, SIGUSR2 may not.
fn handle_signals() {
    HANDLER.call_once(|| unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = nothing as extern "C" fn(libc::c_int) as usize;
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
        sa.sa_flags = libc::SA_RESTART;
        libc::sigaction(libc::SIGUSR2, &sa, std::ptr::null_mut());
    });
}

/// Makes a blocking receive in the thread, which is to stop, return, so that the listen loop ends.
fn stop_thread<T>(h: &JoinHandle<T>) -> bool {
    handle_signals();
    for _ in 0..300 {
        if h.is_finished() {
            return true;
        }
        unsafe { libc::pthread_kill(h.as_pthread_t() as libc::pthread_t, libc::SIGUSR1) };
        std::thread::sleep(Duration::from_micros(300));
    }
    h.is_finished()
}

enum Inject {
    Nothing,
    /// Packets to receive first.
    Flood(inject::Flood),
    Errors(inject::Errors),
}

struct Daemon {
    handle: Option<JoinHandle<Result<io::Result<()>, String>>>,
    quit: Arc<AtomicBool>,
    asy: bool,
}

impl Daemon {
    fn advertiser(setup: &Setup, asy: bool, logs: bool) -> Daemon {
        Self::injected_advertiser(setup, asy, logs, Inject::Nothing)
    }

    /// One whose system calls are interfered with.
    fn injected_advertiser(setup: &Setup, asy: bool, logs: bool, inj: Inject) -> Daemon {
        let st = setup.clone();
        let quit = Arc::new(AtomicBool::new(false));
        let q = quit.clone();
        let flooded = matches!(inj, Inject::Flood(_));
        let handle = std::thread::spawn(move || {
            logcap::enable(logs);
            inject::stoppable(q.clone());
            let run = move || -> io::Result<()> {
                if asy {
                    let mut a = AsyncAdvertiser::new(ulabel(&st.host), st.addr)?;
                    for r in &st.regs {
                        register(&mut a, r);
                    }
                    if flooded {
                        // Its socket is readable, should it wait for that.
                        let _ = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).and_then(|s| s.send_to(&[0], (Ipv4Addr::LOCALHOST, MDNS_PORT)));
                    }
                    async_io::block_on(future::or(a.listen(), async {
                        while !q.load(SeqCst) {
                            async_io::Timer::after(Duration::from_millis(1)).await;
                        }
                        Ok(())
                    }))
                } else {
                    let mut a = SyncAdvertiser::new(ulabel(&st.host), st.addr)?;
                    for r in &st.regs {
                        register(&mut a, r);
                    }
                    a.listen_blocking()
                }
            };
            no_panic(move || match inj {
                Inject::Flood(f) => inject::flood(f, run).0,
                Inject::Errors(e) => inject::errors(e, run).0,
                Inject::Nothing => run(),
            })
        });
        Daemon { handle: Some(handle), quit, asy }
    }

    fn tap(cap: logcap::Capture) -> Daemon {
        Self::flooded_tap(Some(cap), None)
    }

    fn flooded_tap(cap: Option<logcap::Capture>, flood: Option<inject::Flood>) -> Daemon {
        let (tx, rx) = mpsc::channel();
        let quit = Arc::new(AtomicBool::new(false));
        let q = quit.clone();
        let handle = std::thread::spawn(move || {
            inject::stoppable(q);
            no_panic(move || -> io::Result<()> {
                let tap = SyncTap::new()?;
                logcap::capture(cap);
                logcap::enable(true);
                let _ = tx.send(());
                match flood {
                    Some(f) => inject::flood(f, || tap.listen()).0,
                    None => tap.listen(),
                }
            })
        });
        let _ = rx.recv_timeout(LONG);
        Daemon { handle: Some(handle), quit, asy: false }
    }

    /// Interrupts what it does. The handle keeps the thread's number.
    fn signal(&self, sig: libc::c_int) {
        handle_signals();
        if let Some(h) = self.handle.as_ref().filter(|h| !h.is_finished()) {
            unsafe { libc::pthread_kill(h.as_pthread_t() as libc::pthread_t, sig) };
        }
    }

    fn dead(&self) -> bool {
        self.handle.as_ref().map_or(true, |h| h.is_finished())
    }

    /// Why it ended.
    fn reason(&mut self) -> String {
        match self.handle.take().map(|h| h.join()) {
            Some(Ok(Ok(r))) => format!("the listen loop returned {r:?}"),
            Some(Ok(Err(p))) => p,
            _ => "the listen thread died".into(),
        }
    }
}

impl Drop for Daemon {
    fn drop(&mut self) {
        self.quit.store(true, SeqCst);
        let Some(h) = self.handle.take() else { return };
        let done = if self.asy {
            let t0 = Instant::now();
            while !h.is_finished() && t0.elapsed() < Duration::from_secs(2) {
                std::thread::sleep(Duration::from_micros(200));
            }
            h.is_finished()
        } else {
            stop_thread(&h)
        };
        if !done {
            // Leave it behind, in its network namespace.
            net::worker_init();
        }
    }
}

const MDNS_PORT: u16 = 5353;
const GROUP: Ipv4Addr = Ipv4Addr::new(224, 0, 0, 251);

fn client_socket() -> Result<UdpSocket, String> {
    let c = UdpSocket::bind("0.0.0.0:0").map_err(|e| format!("HARNESS: bind: {e}"))?;
    c.set_read_timeout(Some(Duration::from_millis(200))).map_err(|e| format!("HARNESS: {e}"))?;
    Ok(c)
}

fn dest(s: &mut Src) -> SocketAddr {
    if s.chance(1, 3) && net::have_multicast() {
        (GROUP, MDNS_PORT).into()
    } else {
        (Ipv4Addr::LOCALHOST, MDNS_PORT).into()
    }
}

fn query_for(name: &Name, id: u16) -> Vec<u8> {
    encode(&Msg { id, q: vec![Q { name: name.clone(), qtype: 255, qclass: 1, qu: false }], ..Default::default() }, Compress::Never).bytes
}

/// Waits until the advertiser answers.
fn ready(d: &mut Daemon, host: &Name) -> Res {
    let c = client_socket()?;
    c.set_read_timeout(Some(Duration::from_millis(1))).map_err(|e| format!("HARNESS: {e}"))?;
    let t0 = Instant::now();
    let q = query_for(host, 1);
    loop {
        if d.dead() {
            return Err(format!("{} when nothing but a plain query was sent", d.reason()));
        }
        ensure!(t0.elapsed() < LONG, "the advertiser does not answer a query for its host name");
        c.send_to(&q, (Ipv4Addr::LOCALHOST, MDNS_PORT)).map_err(|e| format!("HARNESS: send: {e}"))?;
        if net::recv(&c).is_ok() {
            return Ok(());
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C20

/// Whether `got` is a selection of one option per entry, in order.
fn matches(got: &[Vec<u8>], want: &[Vec<Option<Vec<u8>>>]) -> bool {
    match want.split_first() {
        None => got.is_empty(),
        Some((opts, rest)) => opts.iter().any(|o| match o {
            None => matches(got, rest),
            Some(w) => got.first() == Some(w) && matches(&got[1..], rest),
        }),
    }
}

fn c20_listen(s: &mut Src, ctx: &mut Ctx) -> Res {
    let asy = s.bool();
    let logs = s.chance(1, 4);
    let setup = Setup::gen(s, 2, 8);
    ctx.class(if asy { "async" } else { "sync" });
    ctx.note(|| format!("{} {}", if asy { "async" } else { "sync" }, setup.show()));
    let records = setup.records();
    let host = vec![setup.host.clone(), b"local".to_vec()];
    // A fresh handler for each packet: what is due does not depend on what came before.
    let handle = |b: &[u8]| setup.build().handle_packet(b).ok().flatten().map(|r| r.to_vec());
    let mut daemon = Daemon::advertiser(&setup, asy, logs);
    ready(&mut daemon, &host)?;
    let n = s.range(1, 4);
    let mut clients: Vec<UdpSocket> = (0..n).map(|_| client_socket()).collect::<Result<_, _>>()?;
    if s.chance(1, 3) {
        // A querier that sends from another address, or from the mDNS port, as RFC 6762 queriers do.
        let port = if s.bool() { MDNS_PORT } else { 0 };
        if let Ok(c) = net::bind_shared(Ipv4Addr::new(127, 0, 0, 2 + s.below(50) as u8), port) {
            c.set_read_timeout(Some(Duration::from_millis(200))).map_err(|e| format!("HARNESS: {e}"))?;
            clients[0] = c;
            ctx.class(if port == 0 { "other source address" } else { "source port 5353" });
        }
    }
    let mut sent: Vec<Vec<u8>> = Vec::new();
    let mut improper = false;
    let rounds = if s.chance(1, 25) { s.range(2, 14) } else { 1 };
    ctx.class_if(rounds > 1, "long run");
    for round in 0..rounds {
        let mut want: Vec<Vec<Vec<Option<Vec<u8>>>>> = vec![vec![]; n];
        let mut steps = 0;
        while steps == 0 || s.more(steps, if rounds > 1 { 60 } else { 8 }, 40) {
            steps += 1;
            ctx.steps += 1;
            let i = s.below(n as u64) as usize;
            let mut b = if !sent.is_empty() && s.chance(1, 6) {
                ctx.class("repeated packet");
                s.pick(&sent).clone()
            } else {
                gen_sent(s, &records)
            };
            sent.push(b.clone());
            ctx.class_if(b.len() == MDNS_BUFFER_SIZE, "1500 bytes");
            match s.weighted(&[20, 1, 1]) {
                0 => {}
                1 => {
                    let k = s.range(1400, 4000);
                    b.extend(s.bytes(k));
                    ctx.class("oversized");
                }
                _ => {
                    b.clear();
                    ctx.class("empty");
                }
            }
            let to = dest(s);
            ctx.class_if(to.ip().is_multicast(), "multicast");
            if s.chance(1, 10) && b.len() < 1400 && net::can_forge() {
                // Somebody who cannot be answered, which is no reason to stop.
                let src = match s.below(5) {
                    0 => (Ipv4Addr::new(192, 0, 2, 7), s.u16()),
                    1 => (Ipv4Addr::BROADCAST, 9),
                    2 => (Ipv4Addr::LOCALHOST, MDNS_PORT),
                    _ => (Ipv4Addr::new(127, 0, 0, 1), 0),
                };
                let IpAddr::V4(ip) = to.ip() else { unreachable!() };
                net::send_forged(src, (ip, MDNS_PORT), &b).map_err(|e| format!("HARNESS: send: {e}"))?;
                ctx.class("forged source");
                ctx.note(|| format!("{src:?} to {to}: {}", hex(&b)));
                continue;
            }
            clients[i].send_to(&b, to).map_err(|e| format!("HARNESS: send: {e}"))?;
            let mut opts = vec![handle(cut(&b))];
            if b.len() > MDNS_BUFFER_SIZE {
                opts.push(handle(&b));
            }
            ctx.note(|| format!("client {i} to {to}: {} -> {}", hex(&b), opts[0].as_deref().map_or("-".into(), hex)));
            ctx.nontrivial |= improper && opts[0].is_some();
            ctx.class_if(opts[0].is_some(), "answered");
            improper |= !proper_header(&b);
            want[i].push(opts);
        }
        for (i, c) in clients.iter().enumerate() {
            let q = query_for(&host, 0xbe00 + (round * 8 + i) as u16);
            let w = handle(&q).ok_or("HARNESS: the sentinel query is not answered")?;
            c.send_to(&q, dest(s)).map_err(|e| format!("HARNESS: send: {e}"))?;
            let mut got: Vec<Vec<u8>> = Vec::new();
            let t0 = Instant::now();
            loop {
                match net::recv(c) {
                    Ok((b, a)) => {
                        ensure!(a.port() == MDNS_PORT, "client {i} got a response from {a}");
                        let end = b == w;
                        got.push(b);
                        if end && matches(&got[..got.len() - 1], &want[i]) {
                            break;
                        }
                    }
                    Err(_) => {
                        if daemon.dead() {
                            return Err(daemon.reason());
                        }
                        ensure!(got.last() != Some(&w), "client {i} got {:?}, due were {:?}", got[..got.len() - 1].iter().map(|b| hex(b)).collect::<Vec<_>>(), want[i].iter().flat_map(|o| &o[0]).map(|b| hex(b)).collect::<Vec<_>>());
                        ensure!(t0.elapsed() < WAIT, "client {i} got no response to a query for the host name; before that {} responses of {} due", got.len(), want[i].iter().filter(|o| o[0].is_some()).count());
                    }
                }
            }
        }
    }
    for (i, c) in clients.iter().enumerate() {
        let p = pending(c);
        ensure!(p.is_empty(), "client {i} got a response it did not ask for: {}", hex(&p[0]));
    }
    if daemon.dead() {
        return Err(daemon.reason());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C21

const OPCODES: &[(u16, &str)] = &[(0, "QUERY"), (1, "IQUERY"), (2, "STATUS")];
const RCODES: &[(u16, &str)] = &[(0, "NO_ERROR"), (1, "FORM_ERR"), (2, "SERV_FAIL"), (3, "NX_DOMAIN"), (4, "NOT_IMP"), (5, "REFUSED")];

fn check_header_line(t: &str, r: &RefMsg) -> Res {
    inert(t)?;
    let dir = if r.flags & QR != 0 { "response" } else { "query" };
    let inner = t.strip_prefix(dir).and_then(|x| x.trim_start().strip_prefix('(')).and_then(|x| x.strip_suffix(')'));
    let inner = inner.ok_or_else(|| format!("header line {t:?} for a {dir}"))?;
    let parts: Vec<&str> = inner.split(", ").collect();
    let has = |p: &str| parts.contains(&p);
    ensure!(has(&format!("id={}", r.id)), "header line {t:?} for id {}", r.id);
    let (op, rc) = ((r.flags >> 11) & 15, r.flags & 15);
    for (key, v, names) in [("op=", op, OPCODES), ("rcode=", rc, RCODES)] {
        let x = parts.iter().find_map(|p| p.strip_prefix(key)).ok_or_else(|| format!("no {key} in header line {t:?}"))?;
        match names.iter().find(|n| n.0 == v) {
            Some(n) => ensure!(x == n.1, "{key}{x} for {v} in header line {t:?}"),
            None => ensure!(names.iter().all(|n| n.1 != x), "{key}{x} for {v} in header line {t:?}"),
        }
    }
    for (text, bit) in [("trunc", TC), ("RA", 0x80), ("RD", 0x100), ("AA", AA)] {
        ensure!(has(text) == (r.flags & bit != 0), "flag {text} in header line {t:?}, flags are {:#06x}", r.flags);
    }
    Ok(())
}

fn is_problem(t: &str) -> bool {
    !["query (", "response (", "Q: ", "ANS: ", "AUTH: ", "ADDL: "].iter().any(|p| t.starts_with(p))
}

/// Checks the lines for one packet; returns how many they are.
fn check_lines(b: &[u8], lines: &[String]) -> Result<usize, String> {
    let b = cut(b);
    let problem = |p: usize| -> Res {
        match lines.get(p) {
            Some(t) if is_problem(t) => Ok(()),
            x => Err(format!("no problem logged, but {x:?}")),
        }
    };
    let Some(r) = ref_parse(b) else {
        problem(0)?;
        return Ok(1);
    };
    let mut p = 0;
    let line = |p: usize| lines.get(p).map(|s| s.as_str()).ok_or_else(|| format!("line {p} is missing"));
    check_header_line(line(p)?, &r)?;
    p += 1;
    for q in &r.q {
        let t = line(p)?;
        let t = t.strip_prefix("Q: ").ok_or_else(|| format!("line {t:?} for question {}", show_q(q)))?;
        check_q_text(t, q)?;
        p += 1;
    }
    for (k, tag) in ["ANS: ", "AUTH: ", "ADDL: "].iter().enumerate() {
        for rr in &r.rr[k] {
            let t = line(p)?;
            let t = t.strip_prefix(tag).ok_or_else(|| format!("line {t:?} for record {} in section {tag}", show_name(&rr.name)))?;
            check_rr_text(t, rr, &ref_typed(b, rr))?;
            p += 1;
        }
    }
    if r.err.is_some() {
        problem(p)?;
        p += 1;
    }
    Ok(p)
}

fn gen_tapped(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[6, 4, 2, 2, 1, 1, 1, 1]) {
        0 => {
            let m = gen_msg(s, true, 0);
            gen_encoded(s, &m).bytes
        }
        7 => {
            // as many entries as fit
            let mut m = gen_msg(s, true, 0);
            let k = s.range(60, 300);
            let name: Name = if s.bool() { vec![] } else { vec![b"h".to_vec()] };
            match s.below(4) {
                0 => m.q = (0..k).map(|i| Q { name: name.clone(), qtype: 1 + i as u16, qclass: 1, qu: false }).collect(),
                i => m.rr[i as usize - 1] = (0..k).map(|i| RR { name: name.clone(), class: 1, flush: false, ttl: i as u32, data: if i % 3 == 0 { RData::A([1, 2, 3, i as u8]) } else { RData::Ptr(vec![]) } }).collect(),
            }
            if s.bool() {
                m.q.truncate(300);
                for r in &mut m.rr {
                    r.truncate(100);
                }
            }
            encode(&m, Compress::Max).bytes
        }
        1 => {
            let m = gen_msg(s, true, 0);
            let mut b = gen_encoded(s, &m).bytes;
            mutate(s, &mut b);
            b
        }
        2 => {
            let m = gen_msg(s, true, 0);
            let mut b = gen_encoded(s, &m).bytes;
            let l = s.below(b.len() as u64 + 1) as usize;
            b.truncate(l);
            b
        }
        3 => {
            // counts that do not fit
            let m = gen_msg(s, true, 0);
            let mut b = gen_encoded(s, &m).bytes;
            let i = 4 + s.below(8) as usize;
            b[i] = b[i].wrapping_add(1 + s.below(255) as u8);
            b
        }
        4 => super::codec::gen_bytes(s, 300),
        5 => {
            let m = gen_big_msg(s);
            gen_encoded(s, &m).bytes
        }
        _ => vec![],
    }
}

fn c21_tap(s: &mut Src, ctx: &mut Ctx) -> Res {
    tapped(s, ctx, false, |_, _| ())
}

/// Packets to a tap, which signals may interrupt.
fn tapped(s: &mut Src, ctx: &mut Ctx, signals: bool, before: impl Fn(&mut Src, &mut Ctx)) -> Res {
    let cap: logcap::Capture = Arc::new(Mutex::new(Vec::new()));
    let mut daemon = Daemon::tap(cap.clone());
    let c = client_socket()?;
    let rounds = if s.chance(1, 25) { s.range(2, 14) } else { 1 };
    ctx.class_if(rounds > 1, "long run");
    let mut p = 0;
    let mut bad = false;
    for round in 0..rounds {
        let mut packets: Vec<Vec<u8>> = Vec::new();
        before(s, ctx);
        while packets.is_empty() || s.more(packets.len(), if rounds > 1 { 60 } else { 6 }, 30) {
            let mut b = if !packets.is_empty() && s.chance(1, 10) { s.pick(&packets).clone() } else { gen_tapped(s) };
            if b.len() > 8000 {
                b.truncate(8000);
            }
            ctx.steps += 1;
            if signals {
                faults::interrupt(s, ctx, |n| daemon.signal(n));
            }
            c.send_to(&b, dest(s)).map_err(|e| format!("HARNESS: send: {e}"))?;
            ctx.note(|| hex(&b));
            packets.push(b);
        }
        let mark = format!("uwuhi-sentinel-{round}");
        let name: Name = vec![mark.clone().into_bytes(), b"test".to_vec()];
        let end = query_for(&name, 0xbeef);
        c.send_to(&end, (Ipv4Addr::LOCALHOST, MDNS_PORT)).map_err(|e| format!("HARNESS: send: {e}"))?;
        packets.push(end);
        let t0 = Instant::now();
        let lines: Vec<String> = loop {
            {
                let g = cap.lock().unwrap_or_else(|e| e.into_inner());
                if g.iter().rev().take(3).any(|(l, t)| *l != log::Level::Trace && t.starts_with("Q: ") && t.contains(&format!("{mark}.test."))) {
                    break g.iter().filter(|(l, _)| *l != log::Level::Trace).map(|x| x.1.clone()).collect();
                }
            }
            if daemon.dead() {
                return Err(format!("the tap ended: {}", daemon.reason()));
            }
            ensure!(t0.elapsed() < WAIT, "the tap does not log a query received last");
            std::thread::sleep(Duration::from_micros(200));
        };
        for (i, b) in packets.iter().enumerate() {
            let r = ref_parse(cut(b));
            p += check_lines(b, &lines[p..]).map_err(|e| format!("packet {i} ({}): {e}; all lines: {:?}", hex(b), lines.iter().skip(p).take(30).collect::<Vec<_>>()))?;
            let damaged = r.as_ref().map_or(true, |r| r.err.is_some());
            ctx.class(if damaged { "damaged" } else { "whole" });
            ctx.class_if(b.len() > MDNS_BUFFER_SIZE, "oversized");
            ctx.nontrivial |= bad && i + 1 < packets.len() && r.is_some_and(|r| r.err.is_none() && !r.rr[0].is_empty());
            bad |= damaged;
        }
        ensure!(p == lines.len(), "lines that belong to no packet: {:?}", &lines[p..]);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C22: what is logged

/// Entries that break out of a line, with keys that come twice.
fn hostile_kv(s: &mut Src) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = Vec::new();
    while v.is_empty() || s.more(v.len(), 3, 8) {
        if !v.is_empty() && s.chance(1, 3) {
            let mut e = s.pick(&v).clone();
            if s.bool() {
                e.make_ascii_uppercase();
            }
            v.push(e);
            continue;
        }
        let mut e = hostile_label(s);
        if s.chance(3, 4) {
            e.push(b'=');
            e.extend(hostile_label(s));
        }
        v.push(e);
    }
    v
}

fn hostile_packet(s: &mut Src, id: u16, owner: &Name, response: bool) -> Vec<u8> {
    let mut pool: Vec<Name> = vec![owner.clone(), hostile_name(s)];
    let mut m = Msg { id, flags: if response { QR } else { 0 }, ..Default::default() };
    if s.chance(1, 6) {
        m.flags |= s.u16() & 0x7fff;
    }
    while s.more(m.q.len(), 1, 3) {
        m.q.push(Q { name: if s.bool() { hostile_name(s) } else { owner.clone() }, qtype: gen_qtype(s), qclass: 1, qu: false });
    }
    while m.rr[0].is_empty() || s.more(m.rr[0].len(), 2, 6) {
        let mut r = gen_rr(s, &mut pool, true, 0);
        r.name = if s.bool() { owner.clone() } else { hostile_name(s) };
        match s.below(6) {
            0 => r.data = RData::Txt(hostile_kv(s)),
            1 => {
                let mut n = vec![hostile_label(s), hostile_label(s), hostile_label(s)];
                if s.bool() {
                    n[1].truncate(62);
                    n[1].insert(0, b'_');
                    n[2] = tlab(s.bool());
                }
                n.push(b"local".to_vec());
                if s.chance(1, 3) {
                    n.remove(0);
                }
                r.data = RData::Ptr(n);
            }
            2 => r.data = RData::Srv(s.u16(), 0, s.u16(), hostile_name(s)),
            3 => {
                let n = s.range(0, 30);
                r.data = RData::Raw(*s.pick(&SUPPORTED), s.bytes(n));
            }
            _ => {}
        }
        m.rr[0].push(r);
    }
    let mut b = gen_encoded(s, &m).bytes;
    if s.chance(1, 4) {
        mutate(s, &mut b);
    }
    b
}

pub fn c22_logs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let cap: logcap::Capture = Arc::new(Mutex::new(Vec::new()));
    logcap::capture(Some(cap.clone()));
    let mut k = 0;
    while k == 0 || s.more(k, 1, 4) {
        k += 1;
        ctx.steps += 1;
        let what = s.weighted(&[3, 2, 2, 3, 3]);
        ctx.class(["TXT", "resolver", "discoverer", "advertiser", "call"][what]);
        match what {
            0 => {
                let kv = hostile_kv(s);
                ctx.note(|| format!("{:?}", kv.iter().map(|e| e.escape_ascii().to_string()).collect::<Vec<_>>()));
                let _ = TxtRecords::from_txt(&txt(&kv));
            }
            1 | 2 => {
                let owner = hostile_name(s);
                let b = hostile_packet(s, resolver_id(), &owner, true);
                ctx.note(|| hex(&b));
                if what == 1 {
                    let _ = resolver::decode_answer(&b, &mut Vec::new());
                } else {
                    let _ = discovery::decode_answer(&b, &mut |_| ControlFlow::Continue(()));
                }
            }
            3 => {
                let mut st = Setup { host: hostile_label(s), addr: gen_ip(s), regs: vec![] };
                while s.more(st.regs.len(), 2, 4) {
                    let mut i = gen_inst(s, 2);
                    i.inst = hostile_label(s);
                    i.kv = hostile_kv(s).into_iter().filter(|e| std::str::from_utf8(e).is_ok()).collect();
                    st.regs.push(Reg::Inst(i));
                }
                let mut adv = st.build();
                let records = st.records();
                let b = if s.bool() {
                    encode(&gen_query(s, &records, 2, 4), Compress::Max).bytes
                } else {
                    hostile_packet(s, 7, &records[0].0, false)
                };
                ctx.note(|| format!("{} {}", st.show(), hex(&b)));
                let _ = adv.handle_packet(&b);
            }
            _ => {
                let what = s.below(4) as usize;
                let asy = s.bool();
                let domain = gen_domain(s);
                let (sock, addr) = net::server(false);
                let a = share::Ask::gen(s, what, &domain);
                let mut packets: Vec<Vec<u8>> = Vec::new();
                while packets.is_empty() || s.more(packets.len(), 2, 5) {
                    let mut b = hostile_packet(s, if what == share::RESOLVE { resolver_id() } else { 1 }, &a.owner, true);
                    b.truncate(MDNS_BUFFER_SIZE);
                    packets.push(b);
                }
                packets.extend(a.answers(if what == share::RESOLVE { resolver_id() } else { 1 }, &domain));
                ctx.note(|| format!("{} {}: {}", if asy { "async" } else { "sync" }, a.show(), packets.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" ")));
                let f = inject::Flood { packets, from: addr, after_send: None, limit: LONG, once: true, total: None, ..Default::default() };
                inject::flood(f, || faults::one_call(&a, asy, addr, &domain)).0?;
                drop(sock);
            }
        }
    }
    logcap::capture(None);
    let lines = cap.lock().unwrap_or_else(|e| e.into_inner());
    ctx.nontrivial = !lines.is_empty();
    for (level, l) in lines.iter() {
        ctx.class_if(l.contains("TXT key"), "TXT key logged");
        if let Some(c) = l.chars().find(|c| (c.is_control() && *c != '\t') || matches!(c, '\u{202e}' | '\u{2028}' | '\u{85}' | '\u{e9}' | '\u{feff}')) {
            return Err(format!("{c:?} from the network in the {level} line {l:?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C12

/// The client steps; `None` for no answer.
trait Walk {
    fn types(&mut self) -> Result<Vec<Id>, String>;
    fn instances(&mut self, svc: &Id) -> Result<Vec<Id>, String>;
    fn details(&mut self, i: &Id) -> Result<Option<Got>, String>;
    fn resolve(&mut self, n: &Name) -> Result<Vec<IpAddr>, String>;
}

struct Memory(Advertiser);

impl Memory {
    fn ask(&mut self, n: &Name, types: &[QType], cb: &mut dyn FnMut(Record<'_>)) -> Res {
        let mut buf = [0; MDNS_BUFFER_SIZE];
        let q = discovery::encode_query(&mut buf, &uname(n), types);
        let r = self.0.handle_packet(q).map_err(|e| format!("handle_packet fails for the discovery query: {e:?}"))?;
        if let Some(r) = r {
            let f = discovery::decode_answer(r, &mut |r| {
                cb(r);
                ControlFlow::Continue(())
            });
            ensure!(matches!(f, Ok(ControlFlow::Continue(()))), "decode_answer gives {f:?} for the advertiser's response");
        }
        Ok(())
    }
}

impl Walk for Memory {
    fn types(&mut self) -> Result<Vec<Id>, String> {
        let mut v = Vec::new();
        let mut bad = None;
        self.ask(&name_of("_services._dns-sd._udp.local"), &[QType::PTR], &mut |r| match r {
            Record::PTR(p) => match Service::from_ptr(p) {
                Ok(s) => v.push(id_of_service(&s)),
                Err(e) => bad = Some(format!("a service type is rejected: {e:?}")),
            },
            r => bad = Some(format!("{r:?} in answer to the type query")),
        })?;
        bad.map_or(Ok(v), Err)
    }
    fn instances(&mut self, svc: &Id) -> Result<Vec<Id>, String> {
        let mut v = Vec::new();
        let mut bad = None;
        self.ask(&vec![svc.1.clone(), tlab(svc.2), b"local".to_vec()], &[QType::PTR], &mut |r| match r {
            Record::PTR(p) => match ServiceInstance::from_ptr(p) {
                Ok(s) => v.push(id_of_instance(&s)),
                Err(e) => bad = Some(format!("an instance is rejected: {e:?}")),
            },
            r => bad = Some(format!("{r:?} in answer to the instance query")),
        })?;
        bad.map_or(Ok(v), Err)
    }
    fn details(&mut self, i: &Id) -> Result<Option<Got>, String> {
        let mut det: Option<Result<InstanceDetails, String>> = None;
        let mut txt = None;
        self.ask(&vec![i.0.clone(), i.1.clone(), tlab(i.2), b"local".to_vec()], &[QType::SRV, QType::TXT], &mut |r| match r {
            Record::SRV(s) => {
                det.get_or_insert(InstanceDetails::from_srv(&s).map_err(|e| format!("{e:?}")));
            }
            Record::TXT(t) => txt = Some(TxtRecords::from_txt(&t)),
            _ => {}
        })?;
        let Some(det) = det else { return Ok(None) };
        let mut det = det?;
        if let Some(t) = txt {
            *det.txt_records_mut() = t;
        }
        Ok(Some(got_details(det)))
    }
    fn resolve(&mut self, n: &Name) -> Result<Vec<IpAddr>, String> {
        let mut buf = [0; MDNS_BUFFER_SIZE];
        let q = resolver::encode_query(&mut buf, &uname(n));
        let mut v = Vec::new();
        if let Some(r) = self.0.handle_packet(q).map_err(|e| format!("handle_packet fails for the resolver's query: {e:?}"))? {
            resolver::decode_answer(r, &mut v).map_err(|e| format!("decode_answer fails: {e:?}"))?;
        }
        Ok(v)
    }
}

struct Network {
    disc: Option<Disc>,
    res: Option<Resolver>,
    time: Duration,
}

impl Network {
    fn with<T: Send + 'static>(&mut self, f: impl FnOnce(&mut Disc) -> T + Send + 'static) -> Result<T, String> {
        let mut d = self.disc.take().ok_or("HARNESS: no discoverer")?;
        d.times(self.time, self.time / 3);
        let (d, r) = start(d, f).wait("discovery")?;
        self.disc = Some(d);
        Ok(r)
    }
}

impl Walk for Network {
    fn types(&mut self) -> Result<Vec<Id>, String> {
        self.with(|d| {
            let mut v = Vec::new();
            d.types(&mut |s| {
                v.push(id_of_service(s));
                ControlFlow::Continue(())
            })
            .map(|_| v)
        })?
        .map_err(|e| format!("discover_service_types: {e}"))
    }
    fn instances(&mut self, svc: &Id) -> Result<Vec<Id>, String> {
        let s = Service::new(ulabel(&svc.1), transport(svc.2));
        self.with(move |d| {
            let mut v = Vec::new();
            d.instances(&s, &mut |s| {
                v.push(id_of_instance(s));
                ControlFlow::Continue(())
            })
            .map(|_| v)
        })?
        .map_err(|e| format!("discover_instances: {e}"))
    }
    fn details(&mut self, i: &Id) -> Result<Option<Got>, String> {
        let i = uinstance(i);
        match self.with(move |d| d.details(&i).map(got_details))? {
            Ok(g) => Ok(Some(g)),
            Err(e) if timed_out(&e) => Ok(None),
            Err(e) => Err(format!("load_instance_details: {e}")),
        }
    }
    fn resolve(&mut self, n: &Name) -> Result<Vec<IpAddr>, String> {
        let mut r = self.res.take().ok_or("HARNESS: no resolver")?;
        r.timeout(self.time);
        let d = uname(n);
        let (r, x) = start(r, move |r| r.resolve_domain(&d)).wait("resolve_domain")?;
        self.res = Some(r);
        match x {
            Ok(v) => Ok(v),
            Err(e) if timed_out(&e) => Ok(vec![]),
            Err(e) => Err(format!("resolve_domain: {e}")),
        }
    }
}

fn lower(n: &[Label]) -> Name {
    n.iter().map(|l| l.to_ascii_lowercase()).collect()
}

/// Registrations without names that differ only in case and without repeated instances.
fn gen_unique(s: &mut Src, avg: u64, max: usize) -> Setup {
    let mut st = Setup { host: gen_host_label(s), addr: gen_ip(s), regs: vec![] };
    let svc = gen_svc_label(s);
    let tcp = s.bool();
    let mut taken: Vec<Name> = vec![vec![st.host.clone(), b"local".to_vec()]];
    let mut k = 0;
    while s.more(k, avg, max) {
        k += 1;
        let mut r = gen_reg(s);
        let names = match &mut r {
            Reg::Host(l, _) => {
                if s.chance(1, 3) {
                    *l = st.host.clone();
                }
                vec![vec![l.clone(), b"local".to_vec()]]
            }
            Reg::Inst(i) => {
                if s.bool() {
                    i.svc = svc.clone();
                    i.tcp = tcp;
                }
                if s.chance(1, 3) {
                    i.host = vec![st.host.clone(), b"local".to_vec()];
                }
                if taken.contains(&i.domain()) {
                    continue;
                }
                vec![i.service_domain(), i.domain()]
            }
        };
        if names.iter().any(|n| taken.iter().any(|t| t != n && lower(t) == lower(n))) {
            continue;
        }
        taken.extend(names);
        st.regs.push(r);
    }
    st
}

fn show_ids<'a>(v: impl IntoIterator<Item = &'a Id>) -> String {
    v.into_iter().map(show_id).collect::<Vec<_>>().join(", ")
}

fn same_set(what: &str, got: &[Id], want: &BTreeSet<Id>, whole: bool) -> Res {
    let got: BTreeSet<Id> = got.iter().cloned().collect();
    ensure!(got.is_subset(want), "{what}: {} was never registered", show_ids(got.difference(want)));
    ensure!(!whole || got == *want, "{what}: {} is missing", show_ids(want.difference(&got)));
    Ok(())
}

/// Walks through everything registered.
fn walk_all(s: &Setup, w: &mut dyn Walk, all_hosts: bool) -> Res {
    let records = s.records();
    let fits = |n: &Name, types: &[u16]| {
        let qs: Vec<Q> = types.iter().map(|t| Q { name: n.clone(), qtype: *t, qclass: 1, qu: false }).collect();
        expected(&records, &qs).size <= MDNS_MAX
    };
    let insts: Vec<&Inst> = s.regs.iter().filter_map(|r| if let Reg::Inst(i) = r { Some(i) } else { None }).collect();
    let types: BTreeSet<Id> = insts.iter().map(|i| (vec![], i.svc.clone(), i.tcp)).collect();
    same_set("service types", &w.types()?, &types, fits(&name_of("_services._dns-sd._udp.local"), &[12]))?;
    for t in &types {
        let want: BTreeSet<Id> = insts.iter().filter(|i| i.svc == t.1 && i.tcp == t.2).map(|i| (i.inst.clone(), i.svc.clone(), i.tcp)).collect();
        let got = w.instances(t)?;
        same_set(&format!("instances of {}", show_id(t)), &got, &want, fits(&vec![t.1.clone(), tlab(t.2), b"local".to_vec()], &[12]))?;
    }
    for i in &insts {
        let id = (i.inst.clone(), i.svc.clone(), i.tcp);
        let whole = fits(&i.domain(), &[33, 16]);
        match w.details(&id)? {
            None => ensure!(!whole, "no details for {}", show_id(&id)),
            Some(g) => {
                ensure!(g.host == i.host && g.port == i.port, "details of {} are {}:{} instead of {}:{}", show_id(&id), show_name(&g.host), g.port, show_name(&i.host), i.port);
                let mut want = i.txt();
                want.sort();
                ensure!(g.txt == want || !whole, "metadata of {} is {:?} instead of {want:?}", show_id(&id), g.txt);
            }
        }
    }
    let mut hosts: BTreeSet<Name> = insts.iter().map(|i| i.host.clone()).collect();
    hosts.insert(vec![s.host.clone(), b"local".to_vec()]);
    for r in &s.regs {
        if let Reg::Host(l, _) = r {
            hosts.insert(vec![l.clone(), b"local".to_vec()]);
        }
    }
    for h in &hosts {
        // A name that matches only up to case may resolve or not.
        if records.iter().any(|(n, _)| n != h && lower(n) == lower(h)) {
            continue;
        }
        let want: BTreeSet<IpAddr> = records
            .iter()
            .filter(|(n, _)| n == h)
            .filter_map(|(_, d)| match d {
                RData::A(a) => Some(IpAddr::from(*a)),
                RData::Aaaa(a) => Some(IpAddr::from(*a)),
                _ => None,
            })
            .collect();
        if want.is_empty() && !all_hosts {
            continue;
        }
        let got: BTreeSet<IpAddr> = w.resolve(h)?.into_iter().collect();
        ensure!(got.is_subset(&want), "{} resolves to {got:?} instead of {want:?}", show_name(h));
        ensure!(got == want || !fits(h, &[1, 28]), "{} resolves to {got:?} instead of {want:?}", show_name(h));
    }
    Ok(())
}

fn c12_setup(s: &mut Src, ctx: &mut Ctx, avg: u64, max: usize) -> Setup {
    let st = gen_unique(s, avg, max);
    ctx.note(|| st.show());
    let n = st.regs.iter().filter(|r| matches!(r, Reg::Inst(_))).count();
    ctx.nontrivial = n >= 2;
    ctx.class(match n {
        0 => "no instance",
        1 => "one instance",
        2..=4 => "2-4 instances",
        _ => "5 or more instances",
    });
    st
}

fn c12_inmemory(s: &mut Src, ctx: &mut Ctx) -> Res {
    let st = c12_setup(s, ctx, 4, 14);
    logcap::enable(s.chance(1, 8));
    walk_all(&st, &mut Memory(st.build()), true)?;
    // A type nobody registered.
    let none: Id = (vec![], b"_nobody-has-this".to_vec(), s.bool());
    let mut m = Memory(st.build());
    ensure!(m.instances(&none)?.is_empty(), "instances of an unregistered service");
    ensure!(m.details(&(b"x".to_vec(), none.1.clone(), none.2))?.is_none(), "details of an unregistered instance");
    Ok(())
}

fn c12_multicast(s: &mut Src, ctx: &mut Ctx) -> Res {
    if !net::have_multicast() {
        ctx.class("skipped: no multicast");
        return Ok(());
    }
    ctx.class(share::where_at());
    let st = c12_setup(s, ctx, 3, 8);
    let (a, d, r) = (s.bool(), s.bool(), s.bool());
    ctx.class(if a { "async advertiser" } else { "sync advertiser" });
    ctx.class(if d { "async discoverer" } else { "sync discoverer" });
    ctx.class(if r { "async resolver" } else { "sync resolver" });
    let (away, at) = (s.bool(), s.bool());
    ctx.class_if(away != at && net::other_host(), "client and advertiser on different hosts");
    let mut daemon = net::on(away, || Daemon::advertiser(&st, a, false));
    share::ready_multicast(&mut daemon, &vec![st.host.clone(), b"local".to_vec()])?;
    let mut w = Network {
        disc: Some(net::on(at, || Disc::multicast(d)).map_err(|e| format!("discoverer: {e}"))?),
        res: Some(net::on(at, || Resolver::multicast(r, false)).map_err(|e| format!("resolver: {e}"))?),
        time: Duration::ZERO,
    };
    let mut res = Ok(());
    for ms in [60u64, 400, 2500] {
        w.time = Duration::from_millis(ms);
        ctx.steps += 1;
        res = walk_all(&st, &mut w, false);
        if res.is_ok() {
            return res;
        }
        if daemon.dead() {
            return Err(daemon.reason());
        }
        if w.disc.is_none() || w.res.is_none() {
            return res;
        }
    }
    res
}
