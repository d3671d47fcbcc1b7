//! C23: asynchronous operations on one executor, abandoned operations. C24: one host, many responders.

use super::*;
use crate::inject;
use async_io::{Async, Timer};
use std::cell::{Cell, RefCell};
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::sync::atomic::AtomicU64;
use std::task::Poll;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C23",
            subs: vec![
                nsub("together", 6_000, 200_000, c23_together, "2-6 asynchronous operations (resolving, both discoveries, loading details, over IPv4 or IPv6), at times with a listening advertiser and a client of its, share one single-threaded executor with their fake servers; no server answers before every query was seen, then answers, useless packets and polls are interleaved as generated. Each must end with its own answer. Non-trivial: at least three operations."),
                nsub("abandon", 8_000, 250_000, c23_abandon, "Histories of 2-6 calls of one asynchronous resolver or discoverer, some dropped (unpolled, after a few polls, after the query was sent, between packets), their answers arriving late, before the next call; a call that is not dropped must give exactly the answer sent to it. Non-trivial: a dropped call before a complete one."),
                nsub("flooded", 2_000, 50_000, c23_flooded, "An asynchronous operation or listener whose socket always has another packet to read (the receive functions of the C library are replaced for the thread) shares an executor with a task of 1-50 turns or timers, which must finish; all count."),
                nsub("restart", 4_000, 120_000, c23_restart, "A listening asynchronous advertiser is dropped and started again at generated moments between and among packets; every packet must be answered once, in order, as a fresh packet handler would. Non-trivial: an answered query after a restart."),
            ],
            assumptions: vec!["answers to an abandoned call that arrive only after the next query was sent are not generated", "datagrams are delivered in order on the loopback device"],
        },
        Prop {
            id: "C24",
            subs: vec![
                nsub("packets", 1_500, 40_000, c24_packets, "2-4 advertisers (sync and async) and up to two taps, started and ended at generated moments, share the mDNS port of a network namespace; packets are multicast by 1-3 clients. Each client must receive, as a multiset, what a fresh packet handler of every running advertiser gives for its packets, and each tap must log all packets. Non-trivial: at least two advertisers answered, or a packet after one was ended."),
                nsub("browse", 250, 8_000, c24_browse, "Generated registrations are spread over 2-4 advertisers; walking the client steps over multicast must find all of them. Non-trivial: at least two instances."),
                nsub("clients", 6_000, 150_000, super::faults::clients, "2-7 clients (resolvers and discoverers, sync and async, IPv4 and IPv6) exist at once, all call at the same time in 1-3 rounds, several at the same of 1-3 servers; answers and useless packets are sent interleaved in generated order. Each must end with its own answer. Non-trivial: at least three calls at once."),
            ],
            assumptions: vec!["registered names differ by more than ASCII case, a host name belongs to one advertiser, and no instance is registered twice", "datagrams are delivered in order on the loopback device"],
        },
        Prop {
            id: "C25",
            subs: vec![nsub("link", 6_000, 200_000, c25_link, "1-5 scripted responders share the mDNS port and group (224.0.0.251, or ff02::fb on a virtual device); a multicast resolver (IPv4, IPv6) or discoverer (all three searches), sync or async, makes 1-3 calls. Every responder must receive the query; discovery queries are ignored 0-3 times by each responder, then answered with generated packets (several services, repetitions between responders, junk, other records). The merged packets in sending order go through the models of C16-C18. Non-trivial: useful packets from two responders, or a lost query.")],
            assumptions: vec!["the link is one end of a pair of virtual devices, or the loopback device without those", "responders answer from port 5353 by unicast to the source of the query", "datagrams are delivered in order on the local device"],
        },
    ]
}

type Op<'a> = Pin<Box<dyn Future<Output = Res> + 'a>>;

/// Polls a future only when a generated pattern says so; otherwise it asks to be woken again.
fn jitter<'a, T: 'a>(mut f: Pin<Box<dyn Future<Output = T> + 'a>>, pattern: Vec<u8>) -> Pin<Box<dyn Future<Output = T> + 'a>> {
    let mut i = 0;
    Box::pin(poll_fn(move |cx| {
        let k = pattern.get(i).copied().unwrap_or(0);
        i += 1;
        match k {
            1 => {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            2 => {
                if let Poll::Ready(t) = f.as_mut().poll(cx) {
                    return Poll::Ready(t);
                }
            }
            _ => {}
        }
        f.as_mut().poll(cx)
    }))
}

fn gen_pattern(s: &mut Src) -> Vec<u8> {
    let mut v = Vec::new();
    while s.more(v.len(), 3, 12) {
        v.push(s.below(3) as u8);
    }
    v
}

/// Runs all to the end, or to the first error.
async fn all(mut ops: Vec<Op<'_>>) -> Res {
    poll_fn(move |cx| {
        let mut i = 0;
        while i < ops.len() {
            match ops[i].as_mut().poll(cx) {
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(())) => drop(ops.remove(i)),
                Poll::Pending => i += 1,
            }
        }
        if ops.is_empty() {
            Poll::Ready(Ok(()))
        } else {
            Poll::Pending
        }
    })
    .await
}

async fn pause(k: u8) {
    match k {
        0 => {}
        1 | 2 => future::yield_now().await,
        _ => {
            Timer::after(Duration::from_micros(u64::from(k) * 60)).await;
        }
    }
}

/// What is asked, and the answer to it.
#[derive(Clone)]
pub(super) struct Ask {
    pub(super) what: usize,
    pub(super) id: Id,
    pub(super) owner: Name,
    pub(super) ips: Vec<IpAddr>,
    pub(super) found: Vec<Id>,
    pub(super) host: Name,
    port: u16,
    pub(super) kv: Vec<Vec<u8>>,
}

pub(super) const RESOLVE: usize = 3;

impl Ask {
    pub(super) fn gen(s: &mut Src, what: usize, domain: &Name) -> Ask {
        let id = gen_instance(s);
        let mut pool = Vec::new();
        let (owner, mut ips, mut found) = match what {
            RESOLVE => (gen_plain_name(s), vec![gen_ip(s)], vec![]),
            _ => (owner_of(what, &id, domain), vec![], vec![]),
        };
        if what == RESOLVE {
            while s.more(ips.len(), 1, 5) {
                ips.push(gen_ip(s));
            }
        } else {
            while s.more(found.len(), 2, 6) {
                let mut f = gen_instance(s);
                if what == 1 {
                    f.0.clear();
                }
                if !found.contains(&f) {
                    found.push(f);
                }
            }
        }
        let mut kv = gen_kv(s, true, 4);
        if kv.is_empty() {
            kv.push(vec![]);
        }
        Ask { what, id, owner, ips, found, host: gen_name(s, &mut pool), port: s.edgy16(), kv }
    }
    pub(super) fn show(&self) -> String {
        format!("{} {}", ["instances", "types", "details", "resolve"][self.what], show_name(&self.owner))
    }
    pub(super) fn check_query(&self, b: &[u8]) -> Result<u16, String> {
        match self.what {
            RESOLVE => {
                let r = ref_parse(b).ok_or("the query is malformed")?;
                ensure!(r.q.len() == 2 && r.q.iter().all(|q| q.name == self.owner), "{} sent the query {}", self.show(), hex(b));
                Ok(r.id)
            }
            w => check_what_query(b, w, &self.owner),
        }
    }
    fn target(&self, f: &Id, domain: &Name) -> RData {
        let mut n = if self.what == 1 { vec![] } else { vec![f.0.clone()] };
        n.extend([f.1.clone(), tlab(f.2)]);
        if domain.is_empty() {
            n.push(b"local".to_vec());
        }
        n.extend(domain.iter().cloned());
        RData::Ptr(n)
    }
    /// The answer as packets; the last one ends the call.
    pub(super) fn answers(&self, id: u16, domain: &Name) -> Vec<Vec<u8>> {
        match self.what {
            RESOLVE => {
                let mut m = Msg { id, flags: QR, ..Default::default() };
                m.rr[0] = self.ips.iter().map(|ip| addr_rr(&self.owner, *ip, 9)).collect();
                vec![encode(&m, Compress::Max).bytes]
            }
            2 => vec![response(id, &self.owner, &[RData::Txt(self.kv.clone())]), response(id, &self.owner, &[RData::Srv(1, 2, self.port, self.host.clone())])],
            _ => self.found.iter().chain([&END()]).map(|f| response(id, &self.owner, &[self.target(f, domain)])).collect(),
        }
    }
}

/// The instance or type at which searches stop.
#[allow(non_snake_case)]
pub(super) fn END() -> Id {
    (b"the end".to_vec(), b"_the-end".to_vec(), true)
}

pub(super) enum Client {
    Res(AsyncResolver),
    Disc(AsyncDiscoverer),
}

/// What a call gave.
#[derive(Default, Debug, PartialEq)]
pub(super) struct Gave {
    pub(super) ips: Vec<IpAddr>,
    pub(super) found: Vec<Id>,
    pub(super) details: Option<(Name, u16, Txt)>,
}

impl Client {
    pub(super) fn new(what: usize, a: SocketAddr, domain: &Name) -> Result<Client, String> {
        let r = if what == RESOLVE {
            future::block_on(AsyncResolver::new(a)).and_then(|mut r| r.set_timeout(LONG_CALL).map(|_| Client::Res(r)))
        } else {
            future::block_on(AsyncDiscoverer::new(a, uname(domain))).and_then(|mut d| d.set_discovery_timeout(LONG_CALL).and_then(|_| d.set_retransmit_timeout(LONG_CALL)).map(|_| Client::Disc(d)))
        };
        r.map_err(|e| format!("HARNESS: client: {e}"))
    }
    pub(super) async fn call(&mut self, a: &Ask) -> Result<Gave, String> {
        let mut g = Gave::default();
        let end = END();
        let r = match (self, a.what) {
            (Client::Res(r), _) => r.resolve_domain(&uname(&a.owner)).await.map(|i| g.ips = i.collect()),
            (Client::Disc(d), 1) => {
                let f = &mut g.found;
                d.discover_service_types(|s| {
                    let i = id_of_service(s);
                    if i.1 == end.1 {
                        return ControlFlow::Break(());
                    }
                    f.push(i);
                    ControlFlow::Continue(())
                })
                .await
            }
            (Client::Disc(d), 0) => {
                let f = &mut g.found;
                d.discover_instances(&Service::new(ulabel(&a.id.1), transport(a.id.2)), |s| {
                    let i = id_of_instance(s);
                    if i == end {
                        return ControlFlow::Break(());
                    }
                    f.push(i);
                    ControlFlow::Continue(())
                })
                .await
            }
            (Client::Disc(d), _) => d.load_instance_details(&uinstance(&a.id)).await.map(|x| {
                let x = got_details(x);
                g.details = Some((x.host, x.port, x.txt));
            }),
        };
        r.map_err(|e| format!("{}: {e}", a.show()))?;
        Ok(g)
    }
}

pub(super) fn check_gave(a: &Ask, g: Gave) -> Res {
    let want = match a.what {
        RESOLVE => Gave { ips: a.ips.clone(), ..Default::default() },
        2 => Gave { details: Some((a.host.clone(), a.port, sorted(&a.kv))), ..Default::default() },
        _ => Gave { found: a.found.clone(), ..Default::default() },
    };
    ensure!(g == want, "{} gave {g:?}, its answer was {want:?}", a.show());
    Ok(())
}

/// Longer than any case takes.
const LONG_CALL: Duration = Duration::from_secs(20);

fn aserver(v6: bool) -> Result<(Async<UdpSocket>, SocketAddr), String> {
    let (s, a) = net::server(v6);
    Ok((Async::new(s).map_err(|e| format!("HARNESS: {e}"))?, a))
}

async fn arecv(s: &Async<UdpSocket>) -> Result<(Vec<u8>, SocketAddr), String> {
    let mut b = vec![0; 4096];
    let (n, a) = s.recv_from(&mut b).await.map_err(|e| format!("HARNESS: recv: {e}"))?;
    b.truncate(n);
    Ok((b, a))
}

async fn asend(s: &Async<UdpSocket>, b: &[u8], to: SocketAddr) -> Res {
    s.send_to(b, to).await.map(|_| ()).map_err(|e| format!("HARNESS: send: {e}"))
}

/// A packet that a call asking this takes no notice of.
pub(super) fn gen_noise(s: &mut Src, a: &Ask) -> Vec<u8> {
    if a.what == RESOLVE {
        match s.below(3) {
            0 => super::super::codec::gen_bytes(s, 11),
            1 => query_for(&a.owner, s.u16()),
            _ => {
                let ip = gen_ip(s);
                let mut m = Msg { id: resolver_id() ^ 1, flags: QR, ..Default::default() };
                m.rr[0].push(addr_rr(&a.owner, ip, 5));
                encode(&m, Compress::Max).bytes
            }
        }
    } else {
        match s.below(3) {
            0 => super::super::codec::gen_bytes(s, 11),
            1 => query_for(&a.owner, s.u16()),
            _ => response(s.u16(), &a.owner, &[RData::A([1, 2, 3, 4])]),
        }
    }
}

/// Runs an asynchronous scenario on a thread of its own; one that does not end is reported.
fn scenario(f: impl FnOnce() -> Res + Send + 'static) -> Res {
    let ((), r) = start((), move |_: &mut ()| f()).wait("the executor")?;
    r
}

fn c23_together(s: &mut Src, ctx: &mut Ctx) -> Res {
    let k = s.range(2, 6);
    let domain = gen_domain(s);
    let mut asks = Vec::new();
    for _ in 0..k {
        let what = s.below(4) as usize;
        let a = Ask::gen(s, what, &domain);
        let v6 = s.chance(1, 4) && net::have_v6();
        let mut noise = Vec::new();
        while s.more(noise.len(), 1, 4) {
            noise.push((gen_noise(s, &a), s.below(6) as u8));
        }
        let pauses: Vec<u8> = (0..8).map(|_| s.below(6) as u8).collect();
        let pattern = gen_pattern(s);
        let pattern2 = gen_pattern(s);
        ctx.note(|| format!("{} {} noise {}", if v6 { "v6" } else { "v4" }, a.show(), noise.len()));
        asks.push((a, v6, noise, pauses, pattern, pattern2));
    }
    let listener = s.chance(1, 3).then(|| (Setup::gen(s, 2, 6), gen_pattern(s), s.range(1, 5)));
    ctx.class_if(listener.is_some(), "with a listener");
    ctx.nontrivial = k >= 3;
    ctx.steps += k as u64;
    scenario(move || {
        let seen = Cell::new(0usize);
        let total = asks.len();
        let mut clients = Vec::new();
        let mut servers = Vec::new();
        for (a, v6, ..) in &asks {
            let (sv, addr) = aserver(*v6)?;
            servers.push(sv);
            clients.push(Client::new(a.what, addr, &domain)?);
        }
        let mut ops: Vec<Op<'_>> = Vec::new();
        for (((a, _, noise, pauses, p1, p2), c), sv) in asks.iter().zip(&mut clients).zip(&servers) {
            let (seen, domain) = (&seen, &domain);
            ops.push(jitter(Box::pin(async move { check_gave(a, c.call(a).await?) }), p1.clone()));
            ops.push(jitter(
                Box::pin(async move {
                    let (q, from) = arecv(sv).await?;
                    let id = a.check_query(&q)?;
                    seen.set(seen.get() + 1);
                    // Nobody is answered until everybody has asked.
                    let t0 = Instant::now();
                    while seen.get() < total {
                        ensure!(t0.elapsed() < WAIT, "only {} of {total} operations on one executor have sent their query", seen.get());
                        Timer::after(Duration::from_micros(100)).await;
                    }
                    for (n, p) in noise {
                        asend(sv, n, from).await?;
                        pause(*p).await;
                    }
                    for (i, b) in a.answers(id, domain).iter().enumerate() {
                        pause(pauses[i % pauses.len()]).await;
                        asend(sv, b, from).await?;
                    }
                    Ok(())
                }),
                p2.clone(),
            ));
        }
        let Some((st, pattern, queries)) = listener else { return async_io::block_on(all(ops)) };
        let mut adv = AsyncAdvertiser::new(ulabel(&st.host), st.addr).map_err(|e| format!("HARNESS: advertiser: {e}"))?;
        for r in &st.regs {
            register(&mut adv, r);
        }
        let host = vec![st.host.clone(), b"local".to_vec()];
        ops.push(Box::pin(async move {
            let c = Async::new(client_socket()?).map_err(|e| format!("HARNESS: {e}"))?;
            for i in 0..queries {
                let q = query_for(&host, i as u16);
                asend(&c, &q, (Ipv4Addr::LOCALHOST, MDNS_PORT).into()).await?;
                let (b, _) = arecv(&c).await?;
                let want = st.build().handle_packet(&q).ok().flatten().map(|b| b.to_vec());
                ensure!(Some(&b) == want.as_ref(), "the listener answered {}, due was {want:?}", hex(&b));
            }
            Ok(())
        }));
        let listen: Op<'_> = Box::pin(async { Err(format!("listen ended: {:?}", adv.listen().await)) });
        async_io::block_on(future::or(jitter(listen, pattern), all(ops)))
    })
}

/// How a call is abandoned.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Drop_ {
    Not,
    Unpolled,
    AfterPolls(usize),
    AfterQuery,
    AfterPackets,
}

fn c23_flooded(s: &mut Src, ctx: &mut Ctx) -> Res {
    let listener = s.chance(1, 3);
    let what = s.below(4) as usize;
    let domain = gen_domain(s);
    let a = Ask::gen(s, what, &domain);
    let v6 = !listener && s.chance(1, 4) && net::have_v6();
    let st = Setup::gen(s, 2, 6);
    let mut packets = Vec::new();
    while packets.is_empty() || s.more(packets.len(), 2, 5) {
        packets.push(if listener { super::super::service::gen_sent(s, &st.records()) } else { gen_noise(s, &a) });
    }
    // What the other task does: a timer, or so many turns.
    let turns = s.range(1, 50);
    let timers = s.bool();
    let us = s.below(3000);
    ctx.class(if listener { "listening" } else { ["instances", "types", "details", "resolve"][what] });
    ctx.class(if timers { "timer" } else { "turns" });
    ctx.note(|| format!("{}, {} {turns}, {}", if listener { "listening".to_string() } else { a.show() }, if timers { "timers" } else { "turns" }, packets.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" ")));
    ctx.nontrivial = true;
    let count = Arc::new(AtomicU64::new(0));
    let count2 = count.clone();
    let r = scenario(move || {
        let (sv, addr) = net::server(v6);
        let mut client = Client::new(what, addr, &domain)?;
        let mut adv = if listener { Some(AsyncAdvertiser::new(ulabel(&st.host), st.addr).map_err(|e| format!("HARNESS: advertiser: {e}"))?) } else { None };
        if let Some(adv) = &mut adv {
            for r in &st.regs {
                register(adv, r);
            }
        }
        let op: Op<'_> = match &mut adv {
            Some(adv) => Box::pin(async move { Err(format!("listen ended: {:?}", adv.listen().await)) }),
            None => {
                let (a, client) = (&a, &mut client);
                Box::pin(async move { Err(format!("the call ended: {:?}", client.call(a).await)) })
            }
        };
        let other: Op<'_> = Box::pin(async move {
            for _ in 0..turns {
                if timers {
                    Timer::after(Duration::from_micros(us / turns as u64)).await;
                } else {
                    future::yield_now().await;
                }
            }
            Ok(())
        });
        let f = inject::Flood { packets, from: addr, after_send: None, limit: WAIT, once: false, total: None, ..Default::default() };
        let (r, n) = inject::flood(f, || async_io::block_on(future::or(op, other)));
        drop(sv);
        count2.store(n.count, std::sync::atomic::Ordering::Relaxed);
        ensure!(!n.ended, "no other task got its turn within {WAIT:?} while packets kept arriving");
        r
    });
    ctx.steps += count.load(std::sync::atomic::Ordering::Relaxed);
    r
}
fn c23_abandon(s: &mut Src, ctx: &mut Ctx) -> Res {
    let resolver = s.chance(1, 3);
    let domain = gen_domain(s);
    let v6 = s.chance(1, 4) && net::have_v6();
    let n = s.range(2, 6);
    let mut calls: Vec<(Ask, Drop_, Vec<(Vec<u8>, u8)>, bool, Vec<u8>)> = Vec::new();
    let mut dropped = false;
    for i in 0..n {
        let what = if resolver { RESOLVE } else { s.below(3) as usize };
        let a = match calls.last() {
            // The same again, with another answer.
            Some((last, ..)) if s.chance(1, 3) => {
                let last: &Ask = last;
                let b = Ask::gen(s, last.what, &domain);
                Ask { id: last.id.clone(), owner: last.owner.clone(), ..b }
            }
            _ => Ask::gen(s, what, &domain),
        };
        let how = if i + 1 == n {
            Drop_::Not
        } else {
            match s.below(6) {
                0 => Drop_::Not,
                1 => Drop_::Unpolled,
                2 => Drop_::AfterPolls(s.range(1, 4)),
                3 => Drop_::AfterQuery,
                _ => Drop_::AfterPackets,
            }
        };
        ctx.nontrivial |= dropped && how == Drop_::Not;
        dropped |= how != Drop_::Not;
        let mut noise = Vec::new();
        while s.more(noise.len(), 1, 4) {
            noise.push((gen_noise(s, &a), s.below(6) as u8));
        }
        let late = s.chance(3, 4);
        ctx.note(|| format!("{} {how:?}{}", a.show(), if late { " answered late" } else { "" }));
        ctx.class(match how {
            Drop_::Not => "complete",
            Drop_::Unpolled => "unpolled",
            Drop_::AfterPolls(_) => "after polls",
            Drop_::AfterQuery => "after the query",
            Drop_::AfterPackets => "after packets",
        });
        calls.push((a, how, noise, late, gen_pattern(s)));
    }
    ctx.steps += n as u64;
    scenario(move || {
        let (sv, addr) = aserver(v6)?;
        let mut client = Client::new(if resolver { RESOLVE } else { 0 }, addr, &domain)?;
        // Where the client sends from, once known.
        let mut from: Option<(SocketAddr, u16)> = None;
        for (a, how, noise, late, pattern) in &calls {
            while sv.get_ref().recv_from(&mut [0; 4096]).is_ok() {}
            let learnt = RefCell::new(from);
            let call = Box::pin(client.call(a));
            match how {
                Drop_::Not => {
                    let serve = Box::pin(async {
                        let (q, f) = arecv(&sv).await?;
                        let id = a.check_query(&q)?;
                        *learnt.borrow_mut() = Some((f, id));
                        for (b, p) in noise {
                            asend(&sv, b, f).await?;
                            pause(*p).await;
                        }
                        for b in a.answers(id, &domain) {
                            asend(&sv, &b, f).await?;
                        }
                        Ok(())
                    });
                    let ops: Vec<Op<'_>> = vec![jitter(Box::pin(async { check_gave(a, call.await?) }), pattern.clone()), serve];
                    async_io::block_on(all(ops))?;
                }
                Drop_::Unpolled => drop(call),
                Drop_::AfterPolls(k) => {
                    let mut call = call;
                    let mut left = *k;
                    async_io::block_on(poll_fn(|cx| {
                        left -= 1;
                        if call.as_mut().poll(cx).is_ready() || left == 0 {
                            return Poll::Ready(());
                        }
                        cx.waker().wake_by_ref();
                        Poll::Pending
                    }));
                    if let Ok((_, f)) = sv.get_ref().recv_from(&mut [0; 4096]) {
                        let id = learnt.borrow().map_or(0, |x| x.1);
                        *learnt.borrow_mut() = Some((f, id));
                    }
                }
                Drop_::AfterQuery | Drop_::AfterPackets => {
                    let serve: Op<'_> = Box::pin(async {
                        let (q, f) = arecv(&sv).await?;
                        let id = a.check_query(&q)?;
                        *learnt.borrow_mut() = Some((f, id));
                        if *how == Drop_::AfterPackets {
                            for (b, p) in noise {
                                asend(&sv, b, f).await?;
                                pause(*p).await;
                            }
                            // All but the end.
                            let v = a.answers(id, &domain);
                            for b in &v[..v.len() - 1] {
                                asend(&sv, b, f).await?;
                                future::yield_now().await;
                            }
                            pause(noise.len() as u8).await;
                        }
                        Ok(())
                    });
                    let run: Op<'_> = Box::pin(async { Err(format!("{} ended before its answer: {:?}", a.show(), call.await)) });
                    async_io::block_on(future::or(jitter(run, pattern.clone()), serve))?;
                }
            }
            from = learnt.into_inner();
            if let (Some((f, id)), true) = (from, *late) {
                // Late, but before the next call.
                for b in a.answers(id, &domain) {
                    sv.get_ref().send_to(&b, f).map_err(|e| format!("HARNESS: send: {e}"))?;
                }
            }
        }
        Ok(())
    })
}

fn c23_restart(s: &mut Src, ctx: &mut Ctx) -> Res {
    let setup = Setup::gen(s, 2, 6);
    let records = setup.records();
    let host = vec![setup.host.clone(), b"local".to_vec()];
    let mut sends: Vec<(Vec<u8>, u8)> = Vec::new();
    let mut restarts = 0;
    while sends.len() < 2 || s.more(sends.len(), 8, 40) {
        let b = gen_sent(s, &records);
        let how = s.below(7) as u8;
        restarts += u64::from(how > 1);
        sends.push((b, how));
    }
    sends.retain(|(b, _)| b.len() <= MDNS_BUFFER_SIZE);
    ctx.steps += sends.len() as u64;
    ctx.note(|| format!("{}; {} packets, {restarts} restarts", setup.show(), sends.len()));
    let mut want: Vec<Vec<u8>> = Vec::new();
    let mut had = false;
    for (b, how) in &sends {
        if let Some(r) = setup.build().handle_packet(b).ok().flatten() {
            want.push(r.to_vec());
            ctx.nontrivial |= had;
        }
        had |= *how > 1;
    }
    scenario(move || {
        let mut adv = AsyncAdvertiser::new(ulabel(&setup.host), setup.addr).map_err(|e| format!("HARNESS: advertiser: {e}"))?;
        for r in &setup.regs {
            register(&mut adv, r);
        }
        let c = client_socket()?;
        let to: SocketAddr = (Ipv4Addr::LOCALHOST, MDNS_PORT).into();
        for (b, how) in &sends {
            c.send_to(b, to).map_err(|e| format!("HARNESS: send: {e}"))?;
            let how = *how;
            let listen: Op<'_> = Box::pin(async { Err(format!("listen ended: {:?}", adv.listen().await)) });
            match how {
                0 | 1 => {}
                2 => drop(listen),
                3 | 4 => {
                    let mut listen = listen;
                    let mut left = how - 2;
                    async_io::block_on(poll_fn(|cx| {
                        left -= 1;
                        match listen.as_mut().poll(cx) {
                            Poll::Ready(r) => return Poll::Ready(r),
                            Poll::Pending if left == 0 => return Poll::Ready(Ok(())),
                            Poll::Pending => {}
                        }
                        cx.waker().wake_by_ref();
                        Poll::Pending
                    }))?;
                }
                _ => async_io::block_on(future::or(
                    listen,
                    Box::pin(async {
                        pause(how - 2).await;
                        Ok(())
                    }) as Op<'_>,
                ))?,
            }
        }
        let q = query_for(&host, 0xbeef);
        let last = setup.build().handle_packet(&q).ok().flatten().map(|b| b.to_vec()).ok_or("HARNESS: the sentinel query is not answered")?;
        c.send_to(&q, to).map_err(|e| format!("HARNESS: send: {e}"))?;
        let c = Async::new(c).map_err(|e| format!("HARNESS: {e}"))?;
        let listen: Op<'_> = Box::pin(async { Err(format!("listen ended: {:?}", adv.listen().await)) });
        let (c, want, last) = (&c, &want, &last);
        async_io::block_on(future::or(
            listen,
            Box::pin(async move {
                for (i, w) in want.iter().chain([last]).enumerate() {
                    let timeout = async {
                        Timer::after(WAIT).await;
                        Err(format!("answer {i} of {} is missing", want.len() + 1))
                    };
                    let (b, _) = future::or(arecv(c), timeout).await?;
                    ensure!(b == *w, "answer {i} is {}, due was {}", hex(&b), hex(w));
                }
                Ok(())
            }) as Op<'_>,
        ))?;
        let p = pending(c.get_ref());
        ensure!(p.is_empty(), "a second answer was sent: {}", hex(&p[0]));
        Ok(())
    })
}

// ---------------------------------------------------------------------------------------------
// C24

pub(super) fn to_group(c: &UdpSocket, b: &[u8]) -> Res {
    c.send_to(b, (GROUP, MDNS_PORT)).map(|_| ()).map_err(|e| format!("HARNESS: send: {e}"))
}

/// Waits until the advertiser answers multicast queries.
pub(super) fn ready_multicast(d: &mut Daemon, host: &Name) -> Res {
    let c = client_socket()?;
    c.set_read_timeout(Some(Duration::from_millis(1))).map_err(|e| format!("HARNESS: {e}"))?;
    let t0 = Instant::now();
    let q = query_for(host, 1);
    loop {
        if d.dead() {
            return Err(format!("{} while it shares the port with others", d.reason()));
        }
        ensure!(t0.elapsed() < LONG, "an advertiser does not answer a multicast query for its host name");
        to_group(&c, &q)?;
        if net::recv(&c).is_ok() {
            return Ok(());
        }
    }
}

pub(super) fn where_at() -> &'static str {
    if net::other_host() {
        "on a link between two hosts"
    } else if net::use_link() {
        "on a link"
    } else {
        "on the loopback device"
    }
}

struct Party {
    daemon: Daemon,
    /// What it advertises, or what it logged.
    setup: Option<Setup>,
    cap: logcap::Capture,
}

fn c24_packets(s: &mut Src, ctx: &mut Ctx) -> Res {
    if !net::have_multicast() {
        ctx.class("skipped: no multicast");
        return Ok(());
    }
    ctx.class(where_at());
    let mut parties: Vec<Party> = Vec::new();
    let n = s.range(2, 4);
    let clients: Vec<UdpSocket> = (0..s.range(1, 3)).map(|_| net::on(s.bool(), client_socket)).collect::<Result<_, _>>()?;
    let (mut started, mut ended, mut taps) = (0, 0, 0);
    let mut rounds = 0;
    while started < n || rounds < 2 || s.more(rounds, 3, 8) {
        // Somebody comes or goes.
        match s.weighted(&[3, 1, 1]) {
            0 if started < n => {
                let mut st = Setup::gen(s, 2, 6);
                st.host = format!("advertiser-{started}").into_bytes();
                let asy = s.bool();
                ctx.note(|| format!("start {} {}", if asy { "async" } else { "sync" }, st.show()));
                ctx.class(if asy { "async" } else { "sync" });
                let away = s.bool();
                ctx.class_if(away && net::other_host(), "advertiser on the other host");
                let mut daemon = net::on(away, || Daemon::advertiser(&st, asy, false));
                ready_multicast(&mut daemon, &vec![st.host.clone(), b"local".to_vec()])?;
                started += 1;
                parties.push(Party { daemon, setup: Some(st), cap: Default::default() });
            }
            1 if taps < 2 => {
                let cap: logcap::Capture = Default::default();
                let daemon = net::on(s.bool(), || Daemon::tap(cap.clone()));
                ctx.note(|| "start tap".into());
                ctx.class("tap");
                taps += 1;
                parties.push(Party { daemon, setup: None, cap });
            }
            2 if parties.len() > 1 => {
                let i = s.below(parties.len() as u64) as usize;
                ctx.note(|| format!("end {i}"));
                let p = parties.remove(i);
                if p.setup.is_none() {
                    taps -= 1;
                } else {
                    ended += 1;
                }
                drop(p);
            }
            _ => {}
        }
        rounds += 1;
        let records: Vec<_> = parties.iter().filter_map(|p| p.setup.as_ref()).flat_map(|st| st.records()).collect();
        if records.is_empty() {
            continue;
        }
        let mark = format!("round-{rounds}-start");
        let mark = query_for(&vec![mark.into_bytes(), b"test".to_vec()], 0);
        to_group(&clients[0], &mark)?;
        let mut want: Vec<Vec<Vec<u8>>> = vec![vec![]; clients.len()];
        let mut sent: Vec<Vec<u8>> = Vec::new();
        let answers = |b: &[u8]| -> Vec<Vec<u8>> { parties.iter().filter_map(|p| p.setup.as_ref()).filter_map(|st| st.build().handle_packet(b).ok().flatten().map(|r| r.to_vec())).collect() };
        let mut send = |i: usize, b: Vec<u8>, ctx: &mut Ctx| -> Res {
            to_group(&clients[i], &b)?;
            ctx.steps += 1;
            let a = answers(&b);
            ctx.nontrivial |= a.len() >= 2 || ended > 0;
            want[i].extend(a);
            sent.push(b);
            Ok(())
        };
        let mut k = 0;
        while s.more(k, 3, 12) {
            k += 1;
            let b = gen_sent(s, &records);
            if b.len() <= MDNS_BUFFER_SIZE {
                ctx.note(|| hex(&b));
                send(s.below(clients.len() as u64) as usize, b, ctx)?;
            }
        }
        // What marks the end, for every advertiser and client.
        let hosts: Vec<Name> = parties.iter().filter_map(|p| p.setup.as_ref()).map(|st| vec![st.host.clone(), b"local".to_vec()]).collect();
        for i in 0..clients.len() {
            for h in &hosts {
                send(i, query_for(h, 0xbe00 + rounds as u16), ctx)?;
            }
        }
        let end = query_for(&vec![format!("round-{rounds}-end").into_bytes(), b"test".to_vec()], 0);
        to_group(&clients[0], &end)?;
        for (i, c) in clients.iter().enumerate() {
            let mut due = want[i].clone();
            let t0 = Instant::now();
            while !due.is_empty() {
                match net::recv(c) {
                    Ok((b, a)) => {
                        ensure!(a.port() == MDNS_PORT, "a response from {a}");
                        match due.iter().position(|d| *d == b) {
                            Some(k) => drop(due.swap_remove(k)),
                            None => return Err(format!("client {i} got {}, which no advertiser owes it", hex(&b))),
                        }
                    }
                    Err(_) => {
                        for p in &mut parties {
                            if p.daemon.dead() {
                                return Err(p.daemon.reason());
                            }
                        }
                        ensure!(t0.elapsed() < WAIT, "client {i} lacks {} of {} responses: {}", due.len(), want[i].len(), hex(&due[0]));
                    }
                }
            }
        }
        for (i, c) in clients.iter().enumerate() {
            let p = pending(c);
            ensure!(p.is_empty(), "client {i} got a response too many: {}", hex(&p[0]));
        }
        for p in parties.iter_mut().filter(|p| p.setup.is_none()) {
            let t0 = Instant::now();
            let (from, to) = (format!("round-{rounds}-start.test."), format!("round-{rounds}-end.test."));
            loop {
                let lines: Vec<String> = p.cap.lock().unwrap_or_else(|e| e.into_inner()).iter().filter(|(l, _)| *l != log::Level::Trace).map(|x| x.1.clone()).collect();
                let at = |m: &str| lines.iter().position(|t| t.starts_with("Q: ") && t.contains(m));
                if let (Some(a), Some(b)) = (at(&from), at(&to)) {
                    let mut k = a + 1;
                    for x in &sent {
                        k += check_lines(x, &lines[k..]).map_err(|e| format!("a tap next to advertisers: packet {}: {e}", hex(x)))?;
                    }
                    ensure!(k + 1 == b, "a tap next to advertisers logged {:?}", &lines[k..b]);
                    break;
                }
                if p.daemon.dead() {
                    return Err(format!("the tap ended: {}", p.daemon.reason()));
                }
                ensure!(t0.elapsed() < WAIT, "a tap next to advertisers misses packets; it logged {} lines", lines.len());
                std::thread::sleep(Duration::from_micros(200));
            }
        }
    }
    Ok(())
}

/// One advertiser and its clients on a link.
pub(super) fn c20_link(s: &mut Src, ctx: &mut Ctx) -> Res {
    if !net::have_multicast() {
        ctx.class("skipped: no multicast");
        return Ok(());
    }
    ctx.class(where_at());
    let asy = s.bool();
    let away = s.bool() && net::other_host();
    let setup = Setup::gen(s, 2, 8);
    let host = vec![setup.host.clone(), b"local".to_vec()];
    let records = setup.records();
    ctx.class(if asy { "async" } else { "sync" });
    ctx.note(|| format!("{} {}", if asy { "async" } else { "sync" }, setup.show()));
    let handle = |b: &[u8]| setup.build().handle_packet(b).ok().flatten().map(|r| r.to_vec());
    let mut daemon = net::on(away, || Daemon::advertiser(&setup, asy, false));
    ready_multicast(&mut daemon, &host)?;
    let n = s.range(1, 3);
    let mut clients = Vec::new();
    for _ in 0..n {
        let there = s.bool() && net::other_host();
        let port = if s.chance(1, 4) { MDNS_PORT } else { 0 };
        // A shared port needs an address of its own, or it would take packets from the advertiser.
        let own = if there { [10, 9, 8, 2] } else { [10, 9, 8, 1] };
        let c = net::on(there, || match port {
            MDNS_PORT if net::use_link() && there != away => net::bind_shared(own.into(), port).map_err(|e| format!("HARNESS: bind: {e}")),
            _ => client_socket(),
        })?;
        c.set_read_timeout(Some(Duration::from_millis(200))).map_err(|e| format!("HARNESS: {e}"))?;
        if clients.iter().any(|(_, a, _)| c.local_addr().is_ok_and(|b| b == *a)) {
            continue;
        }
        let addr = c.local_addr().map_err(|e| format!("HARNESS: {e}"))?;
        clients.push((c, addr, there));
    }
    let mut want: Vec<Vec<Vec<u8>>> = vec![vec![]; clients.len()];
    let mut steps = 0;
    while steps < clients.len() || s.more(steps, 6, 25) {
        // The last packets are queries for the host name.
        let i = if steps < clients.len() { steps } else { s.below(clients.len() as u64) as usize };
        let (c, _, there) = &clients[i];
        let b = if steps < clients.len() && s.bool() { query_for(&host, 0xbe00) } else { gen_sent(s, &records) };
        steps += 1;
        if b.len() > MDNS_BUFFER_SIZE {
            continue;
        }
        let to: SocketAddr = match s.below(3) {
            0 if net::use_link() => (if away { [10, 9, 8, 2] } else { [10, 9, 8, 1] }, MDNS_PORT).into(),
            1 if *there == away => (Ipv4Addr::LOCALHOST, MDNS_PORT).into(),
            _ => (GROUP, MDNS_PORT).into(),
        };
        ctx.class_if(to.ip().is_multicast(), "multicast");
        c.send_to(&b, to).map_err(|e| format!("HARNESS: send: {e}"))?;
        ctx.steps += 1;
        let w = handle(&b);
        ctx.note(|| format!("client {i} ({}) to {to}: {} -> {}", if *there == away { "same host" } else { "other host" }, hex(&b), w.as_deref().map_or("-".into(), hex)));
        ctx.nontrivial |= w.is_some() && *there != away;
        ctx.class_if(b.len() == MDNS_BUFFER_SIZE, "1500 bytes");
        want[i].extend(w);
    }
    for (i, (c, ..)) in clients.iter().enumerate() {
        let q = query_for(&host, 0xbeef);
        to_group(c, &q)?;
        let mut due = want[i].clone();
        due.extend(handle(&q));
        let t0 = Instant::now();
        while !due.is_empty() {
            match net::recv(c) {
                Ok((b, a)) => {
                    ensure!(a.port() == MDNS_PORT, "client {i} got a response from {a}");
                    match due.iter().position(|d| *d == b) {
                        Some(k) => drop(due.swap_remove(k)),
                        None => return Err(format!("client {i} got {}, which it is not owed", hex(&b))),
                    }
                }
                Err(_) => {
                    if daemon.dead() {
                        return Err(daemon.reason());
                    }
                    ensure!(t0.elapsed() < WAIT, "client {i} lacks {} of {} responses: {}", due.len(), want[i].len() + 1, hex(&due[0]));
                }
            }
        }
    }
    for (i, (c, ..)) in clients.iter().enumerate() {
        let p = pending(c);
        ensure!(p.is_empty(), "client {i} got a response too many: {}", hex(&p[0]));
    }
    Ok(())
}

fn c24_browse(s: &mut Src, ctx: &mut Ctx) -> Res {
    if !net::have_multicast() {
        ctx.class("skipped: no multicast");
        return Ok(());
    }
    ctx.class(where_at());
    let mut st = c12_setup(s, ctx, 4, 10);
    let n = s.range(2, 4);
    let mut parts = vec![Setup { host: st.host.clone(), addr: st.addr, regs: vec![] }];
    let mut owner: Vec<(Name, usize)> = vec![(lower(&[st.host.clone()]), 0)];
    for i in 1..n {
        let host = format!("advertiser-{i}").into_bytes();
        let addr = gen_ip(s);
        owner.push((lower(&[host.clone()]), i));
        parts.push(Setup { host, addr, regs: vec![] });
    }
    for r in &st.regs {
        let mut i = s.below(n as u64) as usize;
        if let Reg::Host(l, _) = r {
            let l = lower(std::slice::from_ref(l));
            match owner.iter().find(|o| o.0 == l) {
                Some(o) => i = o.1,
                None => owner.push((l, i)),
            }
        }
        parts[i].regs.push(r.clone());
    }
    for p in &parts[1..] {
        st.regs.push(Reg::Host(p.host.clone(), p.addr));
    }
    let mut daemons = Vec::new();
    for p in &parts {
        let asy = s.bool();
        ctx.class(if asy { "async advertiser" } else { "sync advertiser" });
        let away = s.bool();
        ctx.class_if(away && net::other_host(), "advertiser on the other host");
        let mut d = net::on(away, || Daemon::advertiser(p, asy, false));
        ready_multicast(&mut d, &vec![p.host.clone(), b"local".to_vec()])?;
        daemons.push(d);
    }
    let mut w = Network {
        disc: Some(net::on(s.bool(), || Disc::multicast(s.bool())).map_err(|e| format!("discoverer: {e}"))?),
        res: Some(net::on(s.bool(), || Resolver::multicast(s.bool(), false)).map_err(|e| format!("resolver: {e}"))?),
        time: Duration::ZERO,
    };
    let mut res = Ok(());
    for ms in [60u64, 400, 2500] {
        w.time = Duration::from_millis(ms);
        ctx.steps += 1;
        res = walk_all(&st, &mut w, false);
        if res.is_ok() {
            return res;
        }
        for d in &mut daemons {
            if d.dead() {
                return Err(d.reason());
            }
        }
        if w.disc.is_none() || w.res.is_none() {
            return res;
        }
    }
    res
}

// ---------------------------------------------------------------------------------------------
// C25

fn c25_link(s: &mut Src, ctx: &mut Ctx) -> Res {
    if !net::have_multicast() {
        ctx.class("skipped: no multicast");
        return Ok(());
    }
    ctx.class(where_at());
    let resolver = s.chance(2, 5);
    let asy = s.bool();
    let v6 = resolver && s.bool() && net::have_multicast6();
    let n = s.range(1, 5);
    ctx.class(match (resolver, v6) {
        (true, true) => "resolver IPv6",
        (true, false) => "resolver IPv4",
        _ => "discoverer",
    });
    ctx.class(if asy { "async" } else { "sync" });
    ctx.note(|| format!("{} {} {n} responder(s)", if asy { "async" } else { "sync" }, if v6 { "v6" } else { "v4" }));
    let mut sockets: Vec<UdpSocket> = Vec::new();
    let mut away: Vec<bool> = Vec::new();
    for _ in 0..n {
        away.push(s.bool() && net::other_host());
        sockets.push(net::on(away[away.len() - 1], || net::responder(v6, MDNS_PORT)).map_err(|e| format!("HARNESS: responder: {e}"))?);
    }
    ctx.class_if(away.contains(&true), "a responder on the other host");
    let at = s.bool();
    ctx.class_if(at && net::other_host(), "the client on the other host");
    let local = name_of("local");
    // The other responders of one host answer from its other addresses, if any.
    let mut from: Vec<UdpSocket> = Vec::new();
    for (i, x) in sockets.iter().enumerate() {
        from.push(if v6 || away[i] != at || s.bool() { x.try_clone() } else { net::on(at, || net::bind_shared(Ipv4Addr::new(127, 0, 0, 2 + i as u8), MDNS_PORT)) }.map_err(|e| format!("HARNESS: {e}"))?);
    }
    if resolver {
        let mut client = net::on(at, || Resolver::multicast(asy, v6)).map_err(|e| format!("resolver: {e}"))?;
        client.timeout(WAIT);
        let mut calls = 0;
        while calls == 0 || s.more(calls, 1, 3) {
            calls += 1;
            ctx.steps += 1;
            let mut name = gen_plain_name(s);
            if s.bool() {
                name.push(b"local".to_vec());
            }
            let d = uname(&name);
            let job = start(client, move |c| c.resolve_domain(&d));
            let mut to = Vec::new();
            let mut id = 0;
            for (i, x) in sockets.iter().enumerate() {
                let (b, a) = net::recv(x).map_err(|e| format!("responder {i} of {n} received no query: {e}"))?;
                id = check_resolver_query(&b, &name).map_err(|e| format!("query: {e}"))?;
                to.push(a);
            }
            let mut script: Vec<(usize, Vec<u8>)> = Vec::new();
            while s.more(script.len(), 3, 12) {
                let b = gen_resolver_packet(s, id, &name);
                script.push((s.below(n as u64) as usize, b));
            }
            script.push((s.below(n as u64) as usize, good_response(s, id, &name)));
            ctx.nontrivial |= script.iter().any(|x| x.0 != script[0].0);
            for (i, b) in &script {
                ctx.steps += 1;
                from[*i].send_to(b, to[*i]).map_err(|e| format!("HARNESS: send: {e}"))?;
            }
            ctx.note(|| format!("{}: {}", show_name(&name), script.iter().map(|(i, b)| format!("{i}<{}", hex(b))).collect::<Vec<_>>().join(" ")));
            let (c, r) = job.wait("resolve")?;
            client = c;
            let v = r.map_err(|e| format!("error {e:?} although packet {} is a usable response", script.len() - 1))?;
            c16_check(&script, id, &v)?;
            for (i, x) in sockets.iter().enumerate() {
                let p = pending(x);
                ensure!(p.is_empty(), "responder {i} received more than one query for one call: {}", hex(&p[0]));
            }
        }
        return Ok(());
    }
    let mut client = net::on(at, || Disc::multicast(asy)).map_err(|e| format!("discoverer: {e}"))?;
    let mut calls = 0;
    while calls == 0 || s.more(calls, 1, 3) {
        calls += 1;
        ctx.steps += 1;
        let what = s.below(3) as usize;
        let svc = gen_instance(s);
        let types = what == 1;
        let targets = gen_targets(s, &local, types);
        let last: Id = (if what == 0 { format!("sentinel-{calls}").into_bytes() } else { vec![] }, format!("_end-{calls}").into_bytes(), true);
        let owner = owner_of(what, &svc, &local);
        let lost: Vec<usize> = (0..n).map(|_| if s.chance(1, 4) { s.range(1, 3) } else { 0 }).collect();
        let ms = *s.pick(&[5u64, 10, 20]);
        client.times(WAIT, if lost.iter().any(|x| *x > 0) { Duration::from_millis(ms) } else { WAIT });
        let (svc2, last2) = (svc.clone(), last.clone());
        let job = start(client, move |d| run_search(d, what, &svc2, &last2));
        let mut script: Vec<Vec<u8>> = Vec::new();
        let mut useful = 0;
        let mut dest = None;
        let mut id = 0;
        for (i, x) in sockets.iter().enumerate() {
            for k in 0..=lost[i] {
                let (b, a) = net::recv(x).map_err(|e| format!("responder {i} of {n} received query {k} not: {e}"))?;
                id = check_what_query(&b, what, &owner).map_err(|e| format!("query {k}: {e}"))?;
                dest = Some(a);
            }
            let to = dest.ok_or("HARNESS: no query")?;
            let had = script.len();
            let mut k = 0;
            while s.more(k, 3, 10) {
                k += 1;
                let b = if !script.is_empty() && s.chance(1, 5) {
                    // what another one, or this one, has announced already
                    s.pick(&script).clone()
                } else {
                    let mut make = |s: &mut Src| if what == 2 { gen_detail(s) } else { RData::Ptr(s.pick(&targets).clone()) };
                    gen_disc_packet(s, id, &owner, &mut make)
                };
                // Only the last responder ends a search for details.
                if what == 2 && (optional(&b) || has(&b, |d| matches!(d, RData::Srv(..)))) {
                    continue;
                }
                ctx.steps += 1;
                from[i].send_to(&b, to).map_err(|e| format!("HARNESS: send: {e}"))?;
                script.push(b);
            }
            useful += usize::from(script.len() > had);
        }
        let mut end = if what == 0 { vec![last.0.clone()] } else { vec![] };
        end.extend([last.1.clone(), b"_tcp".to_vec(), b"local".to_vec()]);
        let host = vec![format!("host-{calls}").into_bytes(), b"local".to_vec()];
        let ends = if what == 2 {
            vec![response(id, &owner, &[RData::Srv(0, 0, 7000, host.clone())]), response(id, &owner, &[RData::Txt(vec![b"end".to_vec()])])]
        } else {
            vec![response(id, &owner, &[RData::Ptr(end)])]
        };
        for b in ends {
            let i = s.below(n as u64) as usize;
            from[i].send_to(&b, dest.ok_or("HARNESS: no query")?).map_err(|e| format!("HARNESS: send: {e}"))?;
            script.push(b);
        }
        ctx.nontrivial |= useful > 1 || lost.iter().any(|x| *x > 0);
        ctx.class_if(lost.iter().any(|x| *x > 0), "lost queries");
        let (c, f) = job.wait("discovery")?;
        client = c;
        let packets = || script.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" ");
        ctx.note(|| format!("{} lost {lost:?}: {}", show_name(&owner), packets()));
        ensure!(f.result.is_ok(), "the search failed: {:?}; packets {}", f.result, packets());
        if what == 2 {
            let got = f.details.ok_or("HARNESS: no details")?;
            let (srv, txts, _) = model_details(&script);
            ensure!(Some((got.host.clone(), got.port)) == srv, "host and port are {}:{}, received was {srv:?}; packets {}", show_name(&got.host), got.port, packets());
            ensure!(txts.contains(&got.txt), "metadata is {:?}, received was {txts:?}; packets {}", got.txt, packets());
        } else {
            check_calls(&script, types, None, &last, &Seen { calls: f.calls, after: false }).map_err(|e| format!("{e}; packets {}", packets()))?;
        }
        // Retransmissions may have been on their way.
        for x in &sockets {
            pending(x);
        }
    }
    Ok(())
}
