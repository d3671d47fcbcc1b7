//! C16 and C19: times. C26: network faults.

use super::share::*;
use super::*;
use std::net::SocketAddrV6;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        subs: vec![
            nsub("clients", 6_000, 200_000, c26_clients, "Histories of 2-6 calls of one client (resolver of 1-3 servers, all of which must be asked, or discoverer, sync or async, IPv4 or IPv6) with faults at generated points: network down before, during and between the packets of a call, the server's port closed before a call, for part of it or until it ends. Calls that could not send must fail, others must end as the answers say. Non-trivial: a complete call after a fault."),
            nsub("unreachable", 20_000, 400_000, c26_unreachable, "Clients whose only server, or one of several, cannot be sent to (port 0, broadcast, no route): each call must fail with an error that is no timeout, or, with other servers, give exactly their answer. Non-trivial: a second call or several servers."),
            nsub("daemons", 3_000, 100_000, c26_daemons, "Advertisers (sync and async) and taps are created while the port is taken or the network is down, which must fail, then for good; while they run the network goes down and up again at generated moments between and right after packets. Everything received afterwards must be answered or logged as always. Non-trivial: the network was down while one was running."),
            nsub("errors", 6_000, 200_000, c26_errors, "System calls that fail (the functions of the C library are replaced for the thread): no sockets for any of the constructors or the listen loop, an error of sending the query (first or repeated) or of receiving (before or between packets) in histories of 2-5 calls of one client, and errors of sending to one of two clients of an advertiser. Constructors and calls must return an error that is no timeout, later ones work, and the other client gets all its answers. Non-trivial: a call was made to fail."),
            nsub("signals", 3_000, 100_000, c26_signals, "Signals with handlers (with and without SA_RESTART) hit the thread of a call, or of a running advertiser or tap, at generated moments before, between and after its packets, or every millisecond until it ends. Answered calls must give exactly their answer, unanswered ones end as without signals (at the latest after LONG), discoverers keep asking, daemons answer or log every packet. Non-trivial: at least one signal."),
        ],
        assumptions: vec!["network faults are made by taking away the addresses of the loopback device of a network namespace (sending fails), or taking it down (packets get lost); without namespaces only closed ports are used", "what is in flight while the network is down may be lost"],
    }]
}

/// A client of either kind.
pub(super) enum Both {
    Res(Resolver),
    Disc(Disc),
}

impl Both {
    pub(super) fn new(what: usize, asy: bool, a: SocketAddr, domain: &Name) -> Result<Both, String> {
        Ok(if what == RESOLVE { Both::Res(Resolver::new(asy, a).map_err(|e| format!("resolver: {e}"))?) } else { Both::Disc(Disc::new(asy, a, uname(domain)).map_err(|e| format!("discoverer: {e}"))?) })
    }
    pub(super) fn times(&mut self, total: Duration, retransmit: Duration) {
        match self {
            Both::Res(r) => r.timeout(total),
            Both::Disc(d) => d.times(total, retransmit),
        }
    }
    pub(super) fn call(&mut self, a: &Ask) -> (io::Result<()>, Gave) {
        let mut g = Gave::default();
        let end = END();
        let r = match (self, a.what) {
            (Both::Res(r), _) => r.resolve_domain(&uname(&a.owner)).map(|v| g.ips = v),
            (Both::Disc(d), 2) => d.details(&uinstance(&a.id)).map(|x| {
                let x = got_details(x);
                g.details = Some((x.host, x.port, x.txt));
            }),
            (Both::Disc(d), w) => {
                let last: Id = if w == 1 { (vec![], end.1, true) } else { end };
                let (r, mut seen) = search(d, w == 1, &a.id, None, &last);
                if seen.calls.last() == Some(&last) {
                    seen.calls.pop();
                }
                g.found = seen.calls;
                r
            }
        };
        (r, g)
    }
}

/// A call on a client of its own, on this thread; its result does not matter.
pub(super) fn one_call(a: &Ask, asy: bool, addr: SocketAddr, domain: &Name) -> Res {
    let mut c = Both::new(a.what, asy, addr, domain)?;
    c.times(Duration::from_secs(5), Duration::from_secs(5));
    let _ = c.call(a);
    Ok(())
}

fn go(client: Both, a: &Ask) -> Job<Both, (io::Result<()>, Gave)> {
    let a = a.clone();
    start(client, move |c| c.call(&a))
}

pub(super) fn kind_name(what: usize) -> &'static str {
    ["instances", "types", "details", "resolve"][what]
}

// ---------------------------------------------------------------------------------------------
// C16 and C19: times

/// Long enough for anything, or without end.
fn long_time(s: &mut Src) -> Duration {
    match s.below(4) {
        0 | 1 => LONG,
        2 => Duration::MAX,
        _ => *s.pick(&[Duration::from_secs(u32::MAX as u64), Duration::from_secs(i64::MAX as u64), Duration::from_secs(3600 * 24 * 365), Duration::from_millis(u64::MAX), Duration::from_nanos(u64::MAX)]),
    }
}

/// Servers at the same link-local address on two links: the scope says which one is meant.
pub(super) fn scoped(s: &mut Src, ctx: &mut Ctx, whats: &[usize]) -> Res {
    let Some(twin) = net::twin() else {
        ctx.class("no pair of links");
        return Ok(());
    };
    let socks = twin.servers().map_err(|e| format!("HARNESS: servers: {e}"))?;
    let port = socks[0].local_addr().map_err(|e| format!("HARNESS: {e}"))?.port();
    let addr = |i: usize| SocketAddr::V6(SocketAddrV6::new(net::TWIN_SERVER, port, 0, twin.here_index[i]));
    let what = *s.pick(whats);
    let asy = s.bool();
    let first = s.below(2) as usize;
    let both = what == RESOLVE && s.chance(1, 3);
    let domain = gen_domain(s);
    let mut client = Both::new(what, asy, addr(first), &domain)?;
    if both {
        if let Both::Res(r) = &mut client {
            r.add(addr(1 - first));
        }
    }
    ctx.class(if asy { "async" } else { "sync" });
    ctx.class(kind_name(what));
    ctx.class_if(both, "a server on each link");
    ctx.nontrivial = true;
    client.times(LONG, LONG);
    let mut calls = 0;
    while calls == 0 || s.more(calls, 1, 3) {
        calls += 1;
        ctx.steps += 1;
        let a = Ask::gen(s, what, &domain);
        let from = if both { s.below(2) as usize } else { first };
        ctx.note(|| format!("{} {}, servers on link {first}{}, answer on link {from}", if asy { "async" } else { "sync" }, a.show(), if both { " and the other" } else { "" }));
        let job = go(client, &a);
        let mut to = None;
        for i in 0..2 {
            if i != from && !both {
                continue;
            }
            let t0 = Instant::now();
            let (b, peer) = loop {
                let _ = socks[i].set_read_timeout(Some(Duration::from_millis(100)));
                if let Ok(x) = net::recv(&socks[i]) {
                    break x;
                }
                if !both {
                    let p = pending(&socks[1 - i]);
                    ensure!(p.is_empty(), "{}: the query went to the other link than the server's scope says", a.show());
                }
                if let Ok((_, Ok((Err(e), _)))) = job.rx.try_recv() {
                    return Err(format!("{} with a server at {}: {e}", a.show(), addr(i)));
                }
                ensure!(t0.elapsed() < LONG, "{}: the server at {} received no query", a.show(), addr(i));
            };
            let id = a.check_query(&b)?;
            if i == from {
                to = Some((id, peer));
            }
        }
        let (id, peer) = to.ok_or("HARNESS: no peer")?;
        for b in a.answers(id, &domain) {
            socks[from].send_to(&b, peer).map_err(|e| format!("HARNESS: send: {e}"))?;
        }
        let (c, (r, g)) = job.wait("the call")?;
        client = c;
        r.map_err(|e| format!("{} with a server at {}: {e}", a.show(), addr(from)))?;
        check_gave(&a, g).map_err(|e| format!("{e} (server at {})", addr(from)))?;
        if !both {
            let p = pending(&socks[1 - from]);
            ensure!(p.is_empty(), "{}: a query went to the other link, too", a.show());
        }
    }
    Ok(())
}

/// Answers after a while, with times set to more than that.
pub(super) fn late(s: &mut Src, ctx: &mut Ctx, whats: &[usize]) -> Res {
    let wait = Duration::from_millis(s.range(1100, 1700) as u64);
    let n = 8;
    let domain = gen_domain(s);
    ctx.nontrivial = true;
    let mut jobs = Vec::new();
    for i in 0..n {
        let what = *s.pick(whats);
        let asy = i % 2 == 1;
        let v6 = s.chance(1, 4) && net::have_v6();
        let a = Ask::gen(s, what, &domain);
        let (sock, addr) = net::server(v6);
        let mut client = Both::new(what, asy, addr, &domain)?;
        // A discoverer may well keep asking meanwhile.
        let total = long_time(s);
        let again = if s.bool() { long_time(s) } else { Duration::from_millis(s.range(50, 400) as u64) };
        client.times(total, again);
        ctx.class_if(total > LONG || again > LONG, "without a limit");
        ctx.note(|| format!("{} {}", if asy { "async" } else { "sync" }, a.show()));
        ctx.class(if asy { "async" } else { "sync" });
        ctx.class(kind_name(what));
        ctx.steps += 1;
        let job = go(client, &a);
        let (b, from) = net::recv(&sock).map_err(|e| format!("no query received: {e}"))?;
        let id = a.check_query(&b)?;
        jobs.push((a, sock, from, id, job));
    }
    std::thread::sleep(wait);
    for (a, sock, from, id, _) in &jobs {
        for b in a.answers(*id, &domain) {
            sock.send_to(&b, from).map_err(|e| format!("HARNESS: send: {e}"))?;
        }
    }
    for (a, _, _, _, job) in jobs {
        let (_, (r, g)) = job.wait("the call")?;
        r.map_err(|e| format!("{}: {e}, but its answer was sent after {wait:?} and its time is {LONG:?}", a.show()))?;
        check_gave(&a, g).map_err(|e| format!("{e}, sent after {wait:?}; the time set is {LONG:?}"))?;
    }
    Ok(())
}

/// A packet without anything the call could use.
fn junk(s: &mut Src, a: &Ask) -> Vec<u8> {
    if a.what != RESOLVE {
        return gen_useless(s, &a.owner, a.what == 2);
    }
    for _ in 0..4 {
        let b = gen_resolver_packet(s, resolver_id(), &a.owner);
        if !may_use(&b, resolver_id()) && b.len() <= MDNS_BUFFER_SIZE {
            return b;
        }
    }
    vec![0; 12]
}

/// Packets arrive faster than they can be received: before the query is sent and for a while after
/// it, or without end.
pub(super) fn flood(s: &mut Src, ctx: &mut Ctx, whats: &[usize]) -> Res {
    let what = *s.pick(whats);
    let asy = s.bool();
    let v6 = s.chance(1, 4) && net::have_v6();
    let domain = gen_domain(s);
    let (sock, addr) = net::server(v6);
    let mut client = Both::new(what, asy, addr, &domain)?;
    ctx.class(if asy { "async" } else { "sync" });
    ctx.class(kind_name(what));
    let mut calls = 0;
    while calls == 0 || s.more(calls, 1, 3) {
        calls += 1;
        ctx.steps += 1;
        let a = Ask::gen(s, what, &domain);
        // A resolver may well keep reading as long as something comes.
        let endless = what != RESOLVE && s.bool();
        let ms = s.range(20, 90) as u64;
        client.times(if endless { Duration::from_millis(ms) } else { LONG }, if endless { Duration::from_millis(ms / 2) } else { LONG });
        let mut packets = vec![junk(s, &a)];
        while s.more(packets.len(), 2, 5) {
            packets.push(junk(s, &a));
        }
        let after = if !endless && s.chance(1, 8) { s.range(20_000, 100_000) as u64 } else { s.below(400) };
        ctx.note(|| format!("{} {} {}: {}", if asy { "async" } else { "sync" }, a.show(), if endless { format!("{ms} ms, without end") } else { format!("until {after} packets after the query") }, packets.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" ")));
        let f = inject::Flood { packets, from: addr, after_send: (!endless).then_some(after), limit: LONG, once: false, total: None, ..Default::default() };
        let a2 = a.clone();
        let job = start(client, move |c| inject::flood(f, || c.call(&a2)));
        if !endless {
            let t0 = Instant::now();
            let _ = sock.set_read_timeout(Some(Duration::from_millis(200)));
            let (id, to) = loop {
                if let Ok((b, to)) = net::recv(&sock) {
                    break (a.check_query(&b)?, to);
                }
                if let Ok((_, r)) = job.rx.try_recv() {
                    return Err(format!("{}: the call ended without a query: {:?}", a.show(), r.map(|((r, _), _)| r)));
                }
                ensure!(t0.elapsed() < LONG, "{}: no query is sent while packets keep arriving", a.show());
            };
            for b in a.answers(id, &domain) {
                sock.send_to(&b, to).map_err(|e| format!("HARNESS: send: {e}"))?;
            }
        }
        let (c, ((r, g), n)) = job.wait("a call while packets keep arriving")?;
        client = c;
        ctx.steps += n.count;
        ctx.nontrivial |= n.count > 1000;
        ctx.class(if endless { "without end" } else { "until after the query" });
        if endless {
            ensure!(!n.ended, "{} goes on after {LONG:?} while packets keep arriving, its time is {ms} ms", a.show());
            nothing_came(&a, r, g).map_err(|e| format!("{e}, while only useless packets arrived"))?;
            pending(&sock);
        } else {
            ensure!(!n.ended, "{}: no query is sent while packets keep arriving", a.show());
            r.map_err(|e| format!("{}: {e}, but its answer was sent", a.show()))?;
            check_gave(&a, g).map_err(|e| format!("{e}, after {} useless packets", n.count))?;
            let _ = pending(&sock);
        }
    }
    Ok(())
}

/// Clients whose times were never set: nobody answers, or nobody answers the first query.
pub(super) fn defaults(s: &mut Src, ctx: &mut Ctx, whats: &[usize]) -> Res {
    let n = 8;
    let domain = gen_domain(s);
    ctx.nontrivial = true;
    let mut jobs = Vec::new();
    for i in 0..n {
        let what = *s.pick(whats);
        let asy = i % 2 == 1;
        let v6 = s.chance(1, 4) && net::have_v6();
        let a = Ask::gen(s, what, &domain);
        let (sock, addr) = net::server(v6);
        let client = Both::new(what, asy, addr, &domain)?;
        let answered = s.bool();
        ctx.note(|| format!("{} {} answered {answered}", if asy { "async" } else { "sync" }, a.show()));
        ctx.class(if asy { "async" } else { "sync" });
        ctx.class(kind_name(what));
        ctx.class(if answered { "answered" } else { "silence" });
        ctx.steps += 1;
        let domain = domain.clone();
        // Each server in a thread of its own: the times are short.
        jobs.push(std::thread::spawn(move || -> Res {
            let job = go(client, &a);
            let ask = |k: &str| -> Result<(u16, SocketAddr), String> {
                let (b, from) = net::recv(&sock).map_err(|e| format!("{}: no {k} query received: {e}", a.show()))?;
                Ok((a.check_query(&b)?, from))
            };
            let (mut id, mut from) = ask("first")?;
            if answered {
                if a.what != RESOLVE {
                    (id, from) = ask("second")?;
                }
                for b in a.answers(id, &domain) {
                    sock.send_to(&b, from).map_err(|e| format!("HARNESS: send: {e}"))?;
                }
            }
            let (_, (r, g)) = job.wait("a call with the default times")?;
            if answered {
                r.map_err(|e| format!("{} with the default times: {e}, although it was answered at once", a.show()))?;
                return check_gave(&a, g);
            }
            nothing_came(&a, r, g).map_err(|e| format!("with the default times: {e}"))
        }));
    }
    for j in jobs {
        j.join().map_err(|_| "HARNESS: thread".to_string())??;
    }
    Ok(())
}

/// What a call gives that nobody answers.
fn nothing_came(a: &Ask, r: io::Result<()>, g: Gave) -> Res {
    match (a.what, r) {
        (RESOLVE | 2, Err(e)) if timed_out(&e) => {}
        (0 | 1, Ok(())) => {}
        (_, r) => return Err(format!("{} gave {r:?} {g:?} when nobody answered", a.show())),
    }
    ensure!(g == Gave::default(), "{} gave {g:?} when nobody answered", a.show());
    Ok(())
}

/// What a call gives whose query cannot be sent.
fn cannot_send(a: &Ask, r: io::Result<()>) -> Res {
    match r {
        Ok(()) => Err(format!("{} ends without error although its query could not be sent", a.show())),
        Err(e) if timed_out(&e) => Err(format!("{} ends with a timeout although its query could not be sent: {e:?}", a.show())),
        Err(_) => Ok(()),
    }
}

// ---------------------------------------------------------------------------------------------
// C24: clients

/// Clients of one host, all there at once, each with a question of its own.
pub(super) fn clients(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.range(2, 7);
    let domain = gen_domain(s);
    let v6 = net::have_v6();
    let mut servers: Vec<(UdpSocket, SocketAddr)> = vec![net::server(false)];
    while s.more(servers.len(), 1, 3) {
        servers.push(net::server(v6 && s.bool()));
    }
    let tap = if net::have_multicast() && s.chance(1, 4) { Some(SyncTap::new().map_err(|e| format!("tap: {e}"))?) } else { None };
    ctx.class_if(tap.is_some(), "beside a tap");
    let mut clients: Vec<(usize, usize, Option<Both>)> = Vec::new();
    for i in 0..n {
        let sv = s.below(servers.len() as u64) as usize;
        let what = if s.bool() { RESOLVE } else { s.below(3) as usize };
        let asy = s.bool();
        let mut c = Both::new(what, asy, servers[sv].1, &domain).map_err(|e| format!("client {i} of server {sv}, with {i} others: {e}"))?;
        c.times(LONG, LONG);
        ctx.class(if asy { "async" } else { "sync" });
        ctx.class(kind_name(what));
        ctx.class_if(clients.iter().any(|c| c.1 == sv), "a server shared");
        ctx.note(|| format!("client {i} of server {sv} ({}): {} {}", servers[sv].1, if asy { "async" } else { "sync" }, kind_name(what)));
        clients.push((what, sv, Some(c)));
    }
    let mut rounds = 0;
    while rounds == 0 || s.more(rounds, 1, 3) {
        rounds += 1;
        let mut asks: Vec<(usize, Ask)> = Vec::new();
        for (i, (what, sv, _)) in clients.iter().enumerate() {
            // Questions to one server are told apart by their names.
            let w = if *what == RESOLVE { RESOLVE } else { s.below(3) as usize };
            let a = Ask::gen(s, w, &domain);
            if asks.iter().all(|(j, b)| clients[*j].1 != *sv || b.owner != a.owner) {
                asks.push((i, a));
            }
        }
        let mut rest: Vec<usize> = (0..asks.len()).collect();
        let mut jobs = Vec::new();
        while !rest.is_empty() {
            let k = rest.remove(s.below(rest.len() as u64) as usize);
            let (i, a) = &asks[k];
            let c = clients[*i].2.take().ok_or("HARNESS: client")?;
            jobs.push((k, go(c, a)));
            ctx.steps += 1;
        }
        ctx.nontrivial |= asks.len() >= 3;
        let mut todo: Vec<(usize, SocketAddr, Vec<Vec<u8>>)> = Vec::new();
        for (sv, (sock, _)) in servers.iter().enumerate() {
            let here: Vec<usize> = (0..asks.len()).filter(|k| clients[asks[*k].0].1 == sv).collect();
            let mut from: Vec<(usize, SocketAddr)> = Vec::new();
            for got in 0..here.len() {
                let (b, a) = net::recv(sock).map_err(|e| format!("round {rounds}: server {sv} received {got} of {} queries: {e}", here.len()))?;
                let q = ref_parse(&b).and_then(|r| r.q.first().map(|q| q.name.clone())).ok_or_else(|| format!("server {sv} received {}", hex(&b)))?;
                let k = *here.iter().find(|k| asks[**k].1.owner == q).ok_or_else(|| format!("server {sv} received a query nobody sent: {}", hex(&b)))?;
                let id = asks[k].1.check_query(&b)?;
                ensure!(!from.iter().any(|f| f.0 == k), "server {sv} received the query of client {} twice", asks[k].0);
                ensure!(!from.iter().any(|f| f.1 == a), "two clients of server {sv} ask from the same address {a}");
                from.push((k, a));
                let mut v = asks[k].1.answers(id, &domain);
                while s.more(v.len(), 1, 12) {
                    let noise = gen_noise(s, &asks[k].1);
                    // The last one ends the call.
                    let at = s.below(v.len() as u64) as usize;
                    v.insert(at, noise);
                }
                v.reverse();
                todo.push((sv, a, v));
            }
        }
        while !todo.is_empty() {
            let t = s.below(todo.len() as u64) as usize;
            let (sv, to, v) = &mut todo[t];
            match v.pop() {
                Some(b) => servers[*sv].0.send_to(&b, *to).map(|_| ()).map_err(|e| format!("HARNESS: send: {e}"))?,
                None => drop(todo.remove(t)),
            }
        }
        for (k, job) in jobs {
            let (i, a) = &asks[k];
            let (c, (r, g)) = job.wait("a call")?;
            clients[*i].2 = Some(c);
            r.map_err(|e| format!("round {rounds}: client {i}: {}: {e}", a.show()))?;
            check_gave(a, g).map_err(|e| format!("round {rounds}: client {i}: {e}"))?;
        }
        // Clients come and go.
        if clients.len() > 2 && s.chance(1, 3) {
            let k = s.below(clients.len() as u64) as usize;
            clients.remove(k);
        }
    }
    drop(tap);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C26

/// Takes the network down while it exists.
struct Down {
    /// Without addresses sending fails; without a link packets get lost.
    addresses: bool,
    over: bool,
}

impl Down {
    fn now(addresses: bool) -> Result<Down, String> {
        let d = Down { addresses, over: false };
        if addresses { net::addresses(false) } else { net::link(false) }.map_err(|e| format!("HARNESS: network down: {e}"))?;
        Ok(d)
    }
    fn up(&mut self) -> Res {
        self.over = true;
        if self.addresses { net::addresses(true) } else { net::link(true) }.map_err(|e| format!("HARNESS: network up: {e}"))
    }
    fn end(mut self) -> Res {
        self.up()
    }
}

impl Drop for Down {
    fn drop(&mut self) {
        if !self.over {
            let _ = self.up();
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// The server's port is closed all the time.
    Closed,
    /// The port is closed at first.
    Opens,
    DownBefore,
    /// The network goes down after the query, or some answers, for good.
    DownDuring,
    /// It comes up again.
    Flap,
}

fn c26_clients(s: &mut Src, ctx: &mut Ctx) -> Res {
    let resolver = s.chance(1, 3);
    let asy = s.bool();
    let v6 = s.chance(1, 3) && net::have_v6();
    let domain = gen_domain(s);
    // A resolver may have several servers, all of which must be asked each time.
    let count = if resolver { s.range(1, 3) } else { 1 };
    let (mut socks, addrs): (Vec<UdpSocket>, Vec<SocketAddr>) = (0..count).map(|_| net::server(v6)).unzip();
    let mut client = Both::new(if resolver { RESOLVE } else { 0 }, asy, addrs[0], &domain)?;
    if let Both::Res(r) = &mut client {
        addrs[1..].iter().for_each(|a| r.add(*a));
    }
    ctx.class_if(count > 1, "several servers");
    ctx.class(if asy { "async" } else { "sync" });
    let n = s.range(2, 6);
    let mut faults = 0;
    let short = Duration::from_millis(30);
    let fast = Duration::from_millis(6);
    for k in 0..n {
        let what = if resolver { RESOLVE } else { s.below(3) as usize };
        let a = Ask::gen(s, what, &domain);
        use Fault::*;
        let mut f = *s.pick(&[None, None, Closed, Opens, DownBefore, DownDuring, Flap]);
        if k + 1 == n || f == Opens && resolver {
            f = None;
        }
        if f == DownDuring && resolver {
            f = Flap;
        }
        if matches!(f, DownBefore | DownDuring | Flap) && !net::can_fault() {
            f = Closed;
        }
        ctx.class(match f {
            None => "no fault",
            Closed => "port closed",
            Opens => "port closed at first",
            DownBefore => "network down before",
            DownDuring => "network down during",
            Flap => "network down and up",
        });
        ctx.note(|| format!("{} {} {f:?}", if asy { "async" } else { "sync" }, a.show()));
        ctx.steps += 1;
        let at = |e: String| format!("call {k}, {f:?}: {e}");
        match f {
            Closed => client.times(short, fast),
            Opens | DownDuring => client.times(LONG, fast),
            _ => client.times(LONG, LONG),
        }
        let rebind = || -> Result<Vec<UdpSocket>, String> {
            addrs
                .iter()
                .map(|addr| {
                    let x = UdpSocket::bind(addr).map_err(|e| format!("HARNESS: bind again: {e}"))?;
                    x.set_read_timeout(Some(LONG)).map_err(|e| format!("HARNESS: {e}"))?;
                    Ok(x)
                })
                .collect()
        };
        let (r, g);
        match f {
            Closed => {
                socks.clear();
                let job = go(client, &a);
                (client, (r, g)) = job.wait("a call to a closed port")?;
                nothing_came(&a, r, g).map_err(at)?;
                socks = rebind()?;
            }
            DownBefore => {
                let down = Down::now(true)?;
                let job = go(client, &a);
                (client, (r, g)) = job.wait("a call without a network")?;
                down.end()?;
                cannot_send(&a, r).map_err(at)?;
                ensure!(g == Gave::default(), "call {k}: {} gave {g:?} without a network", a.show());
            }
            _ => {
                let job = if f == Opens {
                    socks.clear();
                    let job = go(client, &a);
                    std::thread::sleep(fast * s.below(4) as u32);
                    socks = rebind()?;
                    job
                } else {
                    go(client, &a)
                };
                let who = s.below(count as u64) as usize;
                let mut asked = Option::None;
                for (i, sv) in socks.iter().enumerate() {
                    let (b, from) = net::recv(sv).map_err(|e| at(format!("server {i} of {count} received no query: {e}")))?;
                    let id = a.check_query(&b).map_err(at)?;
                    if i == who {
                        asked = Some((id, from));
                    }
                }
                let (sv, (id, from)) = (&socks[who], asked.ok_or("HARNESS: no socket")?);
                let v = a.answers(id, &domain);
                let split = s.below(v.len() as u64) as usize;
                let send = |v: &[Vec<u8>]| -> Res {
                    for b in v {
                        sv.send_to(b, from).map_err(|e| format!("HARNESS: send: {e}"))?;
                    }
                    Ok(())
                };
                if s.bool() {
                    let noise = gen_noise(s, &a);
                    send(&[noise])?;
                }
                if f == DownDuring {
                    send(&v[..split])?;
                    let down = Down::now(true)?;
                    (client, (r, g)) = job.wait("a call whose network went down")?;
                    down.end()?;
                    cannot_send(&a, r).map_err(at)?;
                    ensure!(g.ips.is_empty() && g.details.is_none() && a.found.starts_with(&g.found), "call {k}: {} gave {g:?} before the network went down", a.show());
                } else {
                    if f == Flap {
                        send(&v[..split])?;
                        let down = Down::now(s.bool())?;
                        std::thread::sleep(Duration::from_millis(s.below(8)));
                        down.end()?;
                        send(&v[split..])?;
                    } else {
                        send(&v)?;
                    }
                    (client, (r, g)) = job.wait("a call")?;
                    r.map_err(|e| at(format!("{}: {e}", a.show())))?;
                    check_gave(&a, g).map_err(at)?;
                    ctx.nontrivial |= faults > 0;
                }
            }
        }
        faults += usize::from(f != None);
        for sv in &socks {
            pending(sv);
        }
    }
    Ok(())
}

fn c26_unreachable(s: &mut Src, ctx: &mut Ctx) -> Res {
    let what = if s.bool() { RESOLVE } else { s.below(3) as usize };
    let asy = s.bool();
    let v6 = s.chance(1, 3) && net::have_v6();
    let domain = gen_domain(s);
    let bad: SocketAddr = match s.below(3) {
        1 if net::can_fault() && v6 => SocketAddr::new("2001:db8::1".parse().unwrap(), 53),
        1 if net::can_fault() => (Ipv4Addr::new(192, 0, 2, s.u8()), 53).into(),
        2 if net::can_fault() && !v6 => (Ipv4Addr::BROADCAST, 53).into(),
        _ => SocketAddr::new(net::loopback(v6), 0),
    };
    ctx.class(if asy { "async" } else { "sync" });
    ctx.class(kind_name(what));
    let others = if what == RESOLVE { s.below(4) as usize } else { 0 };
    let good: Vec<_> = (0..others).map(|_| net::server(v6)).collect();
    let place = s.below(others as u64 + 1) as usize;
    let mut all: Vec<SocketAddr> = good.iter().map(|x| x.1).collect();
    all.insert(place, bad);
    ctx.note(|| format!("{} {} servers {all:?}", if asy { "async" } else { "sync" }, kind_name(what)));
    ctx.class(if others > 0 { "several servers" } else { "one server" });
    ctx.nontrivial = others > 0;
    let mut client = Both::new(what, asy, all[0], &domain)?;
    if let Both::Res(r) = &mut client {
        for a in &all[1..] {
            r.add(*a);
        }
    }
    client.times(WAIT, WAIT);
    let mut calls = 0;
    while calls == 0 || s.more(calls, 1, 4) {
        calls += 1;
        ctx.steps += 1;
        ctx.nontrivial |= calls > 1;
        let w = if what == RESOLVE { what } else { s.below(3) as usize };
        let a = Ask::gen(s, w, &domain);
        let job = go(client, &a);
        let (r, g);
        if others == 0 {
            (client, (r, g)) = job.wait("a call that cannot be sent")?;
        } else {
            let t0 = Instant::now();
            for x in &good {
                x.0.set_nonblocking(true).map_err(|e| format!("HARNESS: {e}"))?;
            }
            let mut k = 0;
            let who = s.below(others as u64) as usize;
            (client, (r, g)) = loop {
                match job.rx.try_recv() {
                    Ok((c, x)) => break (c, x?),
                    Err(mpsc::TryRecvError::Disconnected) => return Err("the call's thread died".into()),
                    Err(_) => {}
                }
                ensure!(t0.elapsed() < LONG, "{} did not end", a.show());
                if let Ok((b, from)) = net::recv(&good[who].0) {
                    let id = a.check_query(&b)?;
                    k += 1;
                    for b in a.answers(id, &domain) {
                        good[who].0.send_to(&b, from).map_err(|e| format!("HARNESS: send: {e}"))?;
                    }
                }
                std::thread::sleep(Duration::from_micros(100));
            };
            ensure!(k <= 1, "{} was asked {k} times", a.show());
        }
        if others > 0 && r.is_ok() {
            check_gave(&a, g)?;
        } else {
            cannot_send(&a, r).map_err(|e| format!("{e}: servers {all:?}"))?;
            ensure!(g == Gave::default(), "{} gave {g:?} and an error", a.show());
        }
        for x in &good {
            pending(&x.0);
        }
    }
    Ok(())
}

/// Attempts to create one that has to fail.
fn must_fail(s: &mut Src, why: &str, ctx: &mut Ctx) -> Res {
    let host = || uwuhi::name::Label::new("h");
    let ip: IpAddr = Ipv4Addr::LOCALHOST.into();
    for _ in 0..s.range(1, 3) {
        let k = s.below(3);
        ctx.note(|| format!("{why}: {}", ["advertiser", "async advertiser", "tap"][k as usize]));
        ctx.steps += 1;
        let what = match k {
            0 => {
                // It uses the network once it listens.
                let mut d = Daemon::advertiser(&Setup { host: b"h".to_vec(), addr: ip, regs: vec![] }, false, false);
                let t0 = Instant::now();
                while !d.dead() && t0.elapsed() < WAIT {
                    std::thread::sleep(Duration::from_micros(100));
                }
                match d.dead().then(|| d.handle.take()).flatten().map(|h| h.join()) {
                    Some(Ok(Ok(Err(_)))) => None,
                    None => Some("a synchronous advertiser"),
                    Some(r) => return Err(format!("a synchronous advertiser ended with {r:?} although {why}")),
                }
            }
            1 => AsyncAdvertiser::new(host(), ip).is_ok().then_some("an asynchronous advertiser"),
            _ => SyncTap::new().is_ok().then_some("a tap"),
        };
        if let Some(w) = what {
            return Err(format!("{w} runs although {why}"));
        }
    }
    Ok(())
}

fn c26_daemons(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.bool() {
        // Somebody else does not share the port.
        let other = UdpSocket::bind((if s.bool() { Ipv4Addr::UNSPECIFIED } else { Ipv4Addr::LOCALHOST }, MDNS_PORT)).map_err(|e| format!("HARNESS: bind: {e}"))?;
        ctx.class("port taken");
        must_fail(s, "another program has the mDNS port for itself", ctx)?;
        drop(other);
    }
    if !net::can_fault() || !net::have_multicast() {
        ctx.class("skipped: no namespaces");
        return Ok(());
    }
    if s.bool() {
        let down = Down::now(s.bool())?;
        let cannot = UdpSocket::bind("0.0.0.0:0").and_then(|x| x.join_multicast_v4(&GROUP, &Ipv4Addr::UNSPECIFIED)).is_err();
        ctx.class(if cannot { "created without a network" } else { "group without a network" });
        if cannot {
            must_fail(s, "the multicast group cannot be joined without a network", ctx)?;
        }
        down.end()?;
    }
    let setup = Setup::gen(s, 2, 6);
    let records = setup.records();
    let host = vec![setup.host.clone(), b"local".to_vec()];
    let asy = s.bool();
    let cap: logcap::Capture = Default::default();
    let mut tap = s.bool().then(|| Daemon::tap(cap.clone()));
    let mut adv = Daemon::advertiser(&setup, asy, false);
    ready(&mut adv, &host)?;
    ctx.class(if asy { "async" } else { "sync" });
    ctx.class_if(tap.is_some(), "with a tap");
    ctx.note(|| setup.show());
    // A tap next to it receives multicast only.
    let multicast = tap.is_some();
    let to = |s: &mut Src| if multicast { (GROUP, MDNS_PORT).into() } else { dest(s) };
    let answer = |b: &[u8]| setup.build().handle_packet(b).ok().flatten().map(|r| r.to_vec());
    let mut rounds = 0;
    let mut flaps = 0;
    while rounds < 2 || s.more(rounds, 2, 5) {
        rounds += 1;
        let c = client_socket()?;
        let mut want: Vec<Vec<u8>> = Vec::new();
        // Packets right before the network goes down: their answers may be lost.
        let mut maybe: Vec<Vec<u8>> = Vec::new();
        let flap = s.chance(2, 3);
        let make = |s: &mut Src| loop {
            let b = gen_sent(s, &records);
            if b.len() <= MDNS_BUFFER_SIZE {
                return b;
            }
        };
        if flap {
            while s.more(maybe.len(), 3, 10) {
                let b = make(s);
                c.send_to(&b, to(s)).map_err(|e| format!("HARNESS: send: {e}"))?;
                maybe.push(b);
            }
            let down = Down::now(s.bool())?;
            ctx.note(|| format!("network down after {}", maybe.len()));
            std::thread::sleep(Duration::from_millis(s.below(6)));
            down.end()?;
            flaps += 1;
            ctx.class("network down and up");
            ctx.nontrivial = true;
        }
        if let Some(t) = &tap {
            ensure!(!t.dead(), "the tap ended when the network went down");
        }
        let mark = query_for(&vec![format!("round-{rounds}").into_bytes(), b"test".to_vec()], 0);
        to_group(&c, &mark)?;
        let mut sent = Vec::new();
        while s.more(sent.len(), 3, 10) {
            let b = make(s);
            ctx.steps += 1;
            c.send_to(&b, to(s)).map_err(|e| format!("HARNESS: send: {e}"))?;
            want.extend(answer(&b));
            sent.push(b);
        }
        let last = query_for(&host, 0xbe00 + rounds as u16);
        to_group(&c, &last)?;
        let last_answer = answer(&last).ok_or("HARNESS: the sentinel is not answered")?;
        want.push(last_answer.clone());
        let mut got: Vec<Vec<u8>> = Vec::new();
        let t0 = Instant::now();
        while got.last() != Some(&last_answer) {
            match net::recv(&c) {
                Ok((b, _)) => got.push(b),
                Err(_) => {
                    if adv.dead() {
                        return Err(format!("{} after the network was down {flaps} times", adv.reason()));
                    }
                    ensure!(t0.elapsed() < WAIT, "no answer to a query for the host name, after the network was down {flaps} times");
                }
            }
        }
        // All of the certain ones at the end, some of the others before.
        ensure!(got.len() >= want.len() && got[got.len() - want.len()..] == want[..], "the answers {:?}, due were for sure {:?}; the network was down {flaps} times", got.iter().map(|b| hex(b)).collect::<Vec<_>>(), want.iter().map(|b| hex(b)).collect::<Vec<_>>());
        let early = &got[..got.len() - want.len()];
        let mut may = maybe.iter().filter_map(|b| answer(b));
        for e in early {
            ensure!(may.any(|m| m == *e), "answer {} is not due; the network was down {flaps} times", hex(e));
        }
        if let Some(t) = &mut tap {
            let t0 = Instant::now();
            loop {
                let lines: Vec<String> = cap.lock().unwrap_or_else(|e| e.into_inner()).iter().filter(|(l, _)| *l != log::Level::Trace).map(|x| x.1.clone()).collect();
                let a = lines.iter().position(|l| l.starts_with("Q: ") && l.contains(&format!("round-{rounds}.test.")));
                if let Some(a) = a {
                    // The sentinel is the last one the tap logs of this round.
                    let mut k = a + 1;
                    let mut missing = false;
                    for x in sent.iter().chain([&last]) {
                        if k >= lines.len() {
                            missing = true;
                            break;
                        }
                        match check_lines(x, &lines[k..]) {
                            Ok(n) => k += n,
                            // It may be in the middle of this packet.
                            Err(e) => {
                                ensure!(t0.elapsed() < WAIT, "the tap: packet {}: {e}, after the network was down {flaps} times", hex(x));
                                missing = true;
                                break;
                            }
                        }
                    }
                    if !missing {
                        break;
                    }
                }
                if t.dead() {
                    return Err(format!("the tap ended: {}", t.reason()));
                }
                ensure!(t0.elapsed() < WAIT, "the tap misses packets after the network was down {flaps} times; it logged {} lines", lines.len());
                std::thread::sleep(Duration::from_micros(300));
            }
        }
    }
    Ok(())
}

/// Some signals, with generated pauses.
pub(super) fn interrupt(s: &mut Src, ctx: &mut Ctx, hit: impl Fn(libc::c_int)) {
    let mut n = 0;
    while s.more(n, 1, 4) {
        n += 1;
        std::thread::sleep(Duration::from_micros(s.below(1500)));
        let sig = if s.chance(2, 3) { libc::SIGUSR1 } else { libc::SIGUSR2 };
        ctx.note(|| if sig == libc::SIGUSR1 { "signal".into() } else { "signal (SA_RESTART)".into() });
        ctx.nontrivial = true;
        ctx.steps += 1;
        hit(sig);
    }
}

fn c26_signals(s: &mut Src, ctx: &mut Ctx) -> Res {
    handle_signals();
    if net::have_multicast() && s.chance(2, 5) {
        if s.chance(1, 3) {
            ctx.class("tap");
            return tapped(s, ctx, true, |_, _| ());
        }
        return signalled_advertiser(s, ctx);
    }
    let what = if s.bool() { RESOLVE } else { s.below(3) as usize };
    let asy = s.chance(1, 4);
    let v6 = s.chance(1, 4) && net::have_v6();
    let domain = gen_domain(s);
    let (sock, addr) = net::server(v6);
    let mut client = Both::new(what, asy, addr, &domain)?;
    ctx.class(if asy { "async" } else { "sync" });
    ctx.class(kind_name(what));
    let mut calls = 0;
    while calls == 0 || s.more(calls, 1, 3) {
        calls += 1;
        ctx.steps += 1;
        let a = Ask::gen(s, what, &domain);
        let mode = s.weighted(&[3, 1, 1]);
        let lost = if mode == 1 && what != RESOLVE { s.range(1, 4) } else { 0 };
        let ms = s.range(20, 60) as u64;
        match mode {
            1 => client.times(LONG, Duration::from_millis(ms / 4)),
            2 => client.times(Duration::from_millis(ms), Duration::from_millis(ms / 3)),
            _ => client.times(LONG, LONG),
        }
        ctx.class(["answered", "queries lost", "silence"][mode]);
        ctx.note(|| format!("{} {} {}", if asy { "async" } else { "sync" }, a.show(), ["answered".to_string(), format!("{lost} queries lost"), format!("silence for {ms} ms")][mode]));
        let (tx, rx) = mpsc::channel();
        let a2 = a.clone();
        let job = start(client, move |c| {
            let _ = tx.send(unsafe { libc::gettid() });
            c.call(&a2)
        });
        let tid = rx.recv_timeout(LONG).map_err(|e| format!("HARNESS: thread: {e}"))?;
        let hit = |n: libc::c_int| unsafe {
            libc::syscall(libc::SYS_tgkill, libc::getpid(), tid, n);
        };
        let every = if s.chance(2, 3) { libc::SIGUSR1 } else { libc::SIGUSR2 };
        let t0 = Instant::now();
        let (r, g);
        if mode == 2 {
            ctx.nontrivial = true;
            (client, (r, g)) = loop {
                match job.rx.recv_timeout(Duration::from_millis(1)) {
                    Ok((c, x)) => break (c, x?),
                    Err(mpsc::RecvTimeoutError::Disconnected) => return Err("the call's thread died".into()),
                    Err(_) => hit(every),
                }
                ensure!(t0.elapsed() < LONG, "{}: signals every millisecond keep it from ending; its time is {ms} ms", a.show());
            };
            nothing_came(&a, r, g).map_err(|e| format!("{e} and signals came"))?;
        } else {
            let _ = sock.set_read_timeout(Some(if lost > 0 { Duration::from_millis(1) } else { LONG }));
            let mut to = None;
            let mut seen = 0;
            while seen <= lost {
                match net::recv(&sock) {
                    Ok((b, from)) => {
                        to = Some((a.check_query(&b)?, from));
                        seen += 1;
                    }
                    Err(_) if lost > 0 => {
                        ctx.nontrivial = true;
                        hit(every);
                    }
                    Err(e) => return Err(format!("no query received: {e}")),
                }
                if let Ok((_, r)) = job.rx.try_recv() {
                    return Err(format!("{} ended after {seen} queries, no answer and signals: {:?}", a.show(), r.map(|r| r.0)));
                }
                ensure!(t0.elapsed() < LONG, "{}: {seen} queries received while signals come every millisecond, retransmitted every {} ms", a.show(), ms / 4);
            }
            let (id, to) = to.ok_or("HARNESS: no query")?;
            for b in a.answers(id, &domain) {
                interrupt(s, ctx, hit);
                if s.chance(1, 4) {
                    let noise = gen_noise(s, &a);
                    sock.send_to(&noise, to).map_err(|e| format!("HARNESS: send: {e}"))?;
                    interrupt(s, ctx, hit);
                }
                sock.send_to(&b, to).map_err(|e| format!("HARNESS: send: {e}"))?;
            }
            (client, (r, g)) = job.wait("a call interrupted by signals")?;
            r.map_err(|e| format!("{}: {e}, although it was answered; signals came", a.show()))?;
            check_gave(&a, g).map_err(|e| format!("{e}; signals came"))?;
        }
        let _ = sock.set_read_timeout(Some(LONG));
        pending(&sock);
    }
    Ok(())
}

fn signalled_advertiser(s: &mut Src, ctx: &mut Ctx) -> Res {
    let setup = Setup::gen(s, 2, 6);
    let host = vec![setup.host.clone(), b"local".to_vec()];
    let asy = s.chance(1, 4);
    ctx.class(if asy { "async advertiser" } else { "advertiser" });
    ctx.note(|| setup.show());
    let mut adv = Daemon::advertiser(&setup, asy, false);
    ready(&mut adv, &host)?;
    serves(s, ctx, &mut adv, &setup, true).map_err(|e| format!("{e}; signals came"))
}

/// Packets of one client, answered in order.
fn serves(s: &mut Src, ctx: &mut Ctx, adv: &mut Daemon, setup: &Setup, signals: bool) -> Res {
    let host = vec![setup.host.clone(), b"local".to_vec()];
    let records = setup.records();
    let c = client_socket()?;
    let mut model = setup.build();
    let mut want: Vec<Vec<u8>> = Vec::new();
    let mut sent = 0;
    while sent == 0 || s.more(sent, 4, 12) {
        sent += 1;
        let mut b = gen_sent(s, &records);
        b.truncate(MDNS_BUFFER_SIZE);
        ctx.steps += 1;
        ctx.note(|| hex(&b));
        if signals {
            interrupt(s, ctx, |n| adv.signal(n));
        }
        c.send_to(&b, dest(s)).map_err(|e| format!("HARNESS: send: {e}"))?;
        want.extend(model.handle_packet(&b).ok().flatten().map(|r| r.to_vec()));
    }
    if signals {
        interrupt(s, ctx, |n| adv.signal(n));
    }
    let last = query_for(&host, 0xbe26);
    c.send_to(&last, (Ipv4Addr::LOCALHOST, MDNS_PORT)).map_err(|e| format!("HARNESS: send: {e}"))?;
    want.push(model.handle_packet(&last).ok().flatten().ok_or("HARNESS: the sentinel is not answered")?.to_vec());
    let t0 = Instant::now();
    for (i, w) in want.iter().enumerate() {
        loop {
            match net::recv(&c) {
                Ok((b, _)) if b == *w => break,
                Ok((b, _)) => return Err(format!("answer {i} of {} is {}, not {}", want.len(), hex(&b), hex(w))),
                Err(_) => {
                    if adv.dead() {
                        return Err(adv.reason());
                    }
                    ensure!(t0.elapsed() < WAIT, "answer {i} of {} missing", want.len());
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C20 and C21: nothing comes

fn quiet(s: &mut Src, ctx: &mut Ctx) {
    let ms = s.range(600, if ctx.thorough { 45_000 } else { 3_500 }) as u64;
    ctx.note(|| format!("nothing for {ms} ms"));
    ctx.nontrivial = true;
    ctx.steps += 1;
    std::thread::sleep(Duration::from_millis(ms));
}

pub(super) fn c21_idle(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = std::cell::Cell::new(0);
    tapped(s, ctx, false, |s, ctx| {
        n.set(n.get() + 1);
        if n.get() <= 2 {
            quiet(s, ctx);
        }
    })
}

pub(super) fn c20_idle(s: &mut Src, ctx: &mut Ctx) -> Res {
    let shared = net::have_multicast();
    let first = s.bool();
    let mut all: Vec<(Daemon, Setup, Name)> = Vec::new();
    for i in 0..if shared { 2 } else { 1 } {
        let setup = Setup { host: format!("idle-{i}").into_bytes(), addr: gen_ip(s), regs: vec![] };
        let host = vec![setup.host.clone(), b"local".to_vec()];
        let mut d = Daemon::advertiser(&setup, first ^ (i == 1), false);
        // The one that started last has the port for packets to this host.
        ready(&mut d, &host)?;
        all.push((d, setup, host));
    }
    let c = client_socket()?;
    let mut rounds = 0;
    while rounds == 0 || rounds == 1 && s.chance(1, 3) {
        rounds += 1;
        quiet(s, ctx);
        for k in 0..s.range(1, 3) {
            for (d, setup, host) in &mut all {
                let q = query_for(host, (rounds * 8 + k) as u16);
                let to: SocketAddr = if shared { (GROUP, MDNS_PORT).into() } else { (Ipv4Addr::LOCALHOST, MDNS_PORT).into() };
                c.send_to(&q, to).map_err(|e| format!("HARNESS: send: {e}"))?;
                let want = setup.build().handle_packet(&q).ok().flatten().ok_or("HARNESS: not answered")?.to_vec();
                let t0 = Instant::now();
                loop {
                    match net::recv(&c) {
                        Ok((b, _)) if b == want => break,
                        Ok((b, _)) => return Err(format!("the answer is {}, not {}", hex(&b), hex(&want))),
                        Err(_) => {
                            if d.dead() {
                                return Err(format!("{} while nothing came", d.reason()));
                            }
                            ensure!(t0.elapsed() < WAIT, "a query is not answered after a while without packets");
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C20 and C21: many packets

pub(super) fn c20_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    let setup = Setup::gen(s, 2, 6);
    let records = setup.records();
    let asy = s.bool();
    ctx.class(if asy { "async" } else { "sync" });
    let (_sink, from) = net::server(false);
    let mut packets: Vec<Vec<u8>> = Vec::new();
    while packets.is_empty() || s.more(packets.len(), 2, 6) {
        let mut b = gen_sent(s, &records);
        b.truncate(300);
        packets.push(b);
    }
    let total = s.range(66_000, 140_000) as u64;
    ctx.note(|| format!("{} {} {total} times {}", if asy { "async" } else { "sync" }, setup.show(), packets.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" ")));
    ctx.nontrivial = true;
    ctx.steps += total;
    let held: Arc<Mutex<Vec<inject::Held>>> = Default::default();
    let f = inject::Flood { packets, from, limit: LONG, total: Some(total), held: Some(held.clone()), ..Default::default() };
    let mut adv = Daemon::injected_advertiser(&setup, asy, false, Inject::Flood(f));
    // What is sent before it has received them all could be too much for its socket's queue.
    let t0 = Instant::now();
    while held.lock().unwrap_or_else(|e| e.into_inner()).len() < 2 && !adv.dead() && t0.elapsed() < LONG {
        std::thread::sleep(Duration::from_millis(1));
    }
    ready(&mut adv, &vec![setup.host.clone(), b"local".to_vec()]).map_err(|e| format!("{e}, after many packets"))?;
    serves(s, ctx, &mut adv, &setup, false).map_err(|e| format!("{e}, after {total} packets"))
}

pub(super) fn c21_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (_sink, from) = net::server(false);
    let mut packets: Vec<Vec<u8>> = Vec::new();
    while packets.is_empty() || s.more(packets.len(), 2, 5) {
        let mut b = gen_tapped(s);
        b.truncate(200);
        packets.push(b);
    }
    let total = s.range(66_000, 100_000) as u64;
    ctx.note(|| format!("{total} times {}", packets.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" ")));
    ctx.nontrivial = true;
    ctx.steps += total;
    let cap: logcap::Capture = Default::default();
    let f = inject::Flood { packets: packets.clone(), from, after_send: None, limit: LONG * 100, once: false, total: Some(total), ..Default::default() };
    let mut tap = Daemon::flooded_tap(Some(cap.clone()), Some(f));
    let c = client_socket()?;
    let end = query_for(&name_of("after-many.test"), 0xbeef);
    c.send_to(&end, (Ipv4Addr::LOCALHOST, MDNS_PORT)).map_err(|e| format!("HARNESS: send: {e}"))?;
    let t0 = Instant::now();
    loop {
        if cap.lock().unwrap_or_else(|e| e.into_inner()).iter().rev().take(3).any(|(_, t)| t.starts_with("Q: ") && t.contains("after-many.test.")) {
            break;
        }
        if tap.dead() {
            return Err(format!("the tap ended: {}", tap.reason()));
        }
        ensure!(t0.elapsed() < LONG * 4, "the tap does not log a query received after {total} packets");
        std::thread::sleep(Duration::from_millis(1));
    }
    drop(tap);
    let all = std::mem::take(&mut *cap.lock().unwrap_or_else(|e| e.into_inner()));
    let lines: Vec<String> = all.into_iter().filter(|x| x.0 != log::Level::Trace).map(|x| x.1).collect();
    let mut p = 0;
    for i in 0..=total {
        let b = if i == total { &end } else { &packets[(i % packets.len() as u64) as usize] };
        p += check_lines(b, lines.get(p..).unwrap_or(&[])).map_err(|e| format!("packet {i} ({}): {e}", hex(b)))?;
    }
    ensure!(p == lines.len(), "{} lines that belong to no packet", lines.len() - p);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C26: failing system calls

fn c26_errors(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.weighted(&[2, 5, 2]) {
        0 => no_sockets(s, ctx),
        1 => failing_calls(s, ctx),
        _ => failing_answers(s, ctx),
    }
}

fn no_sockets(s: &mut Src, ctx: &mut Ctx) -> Res {
    let v6 = s.bool() && net::have_v6();
    let (_sock, addr) = net::server(v6);
    let domain = gen_domain(s);
    let host = || uwuhi::name::Label::new("h");
    let ip: IpAddr = Ipv4Addr::LOCALHOST.into();
    let mut k = 0;
    while k == 0 || s.more(k, 2, 6) {
        k += 1;
        let errno = *s.pick(&[libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::ENOBUFS, libc::EACCES, libc::EADDRINUSE]);
        let no = Some((if s.bool() { 1 } else { u64::MAX }, errno));
        let e = if s.bool() { inject::Errors { socket: no, ..Default::default() } } else { inject::Errors { bind: no, ..Default::default() } };
        let asy = s.bool();
        let what = s.below(5);
        let name = ["a resolver", "a discoverer", "a multicast resolver", "an advertiser", "a tap"][what as usize];
        ctx.note(|| format!("{name} ({}) {e:?}", if asy { "async" } else { "sync" }));
        ctx.class(name);
        ctx.steps += 1;
        ctx.nontrivial = true;
        let domain = domain.clone();
        let (_, (r, hits)) = start((), move |_| {
            inject::errors(e, || match what {
                0 => Resolver::new(asy, addr).map(drop),
                1 => Disc::new(asy, addr, uname(&domain)).map(drop),
                2 => Resolver::multicast(asy, v6).map(drop),
                3 if asy => AsyncAdvertiser::new(host(), ip).map(drop),
                3 => SyncAdvertiser::new(host(), ip).and_then(|mut a| a.listen_blocking()),
                _ => SyncTap::new().map(drop),
            })
        })
        .wait(&format!("{name} ({}) without sockets ({e:?})", if asy { "async" } else { "sync" }))?;
        ensure!(hits == 0 || r.is_err(), "{name} ({}) was made although the system gave it no socket ({e:?})", if asy { "async" } else { "sync" });
        ctx.class_if(hits == 0, "no socket needed");
    }
    // It leaves nothing behind.
    Resolver::new(s.bool(), addr).map_err(|e| format!("a resolver after the system had no sockets: {e}"))?;
    if net::have_multicast() {
        SyncTap::new().map_err(|e| format!("a tap after the system had no sockets: {e}"))?;
        AsyncAdvertiser::new(host(), ip).map_err(|e| format!("an advertiser after the system had no sockets: {e}"))?;
    }
    Ok(())
}

fn failing_calls(s: &mut Src, ctx: &mut Ctx) -> Res {
    let resolver = s.chance(1, 3);
    let asy = s.bool();
    let v6 = s.chance(1, 3) && net::have_v6();
    let domain = gen_domain(s);
    let (sock, addr) = net::server(v6);
    let mut client = Both::new(if resolver { RESOLVE } else { 0 }, asy, addr, &domain)?;
    ctx.class(if asy { "async" } else { "sync" });
    let n = s.range(2, 5);
    for k in 0..n {
        let what = if resolver { RESOLVE } else { s.below(3) as usize };
        let a = Ask::gen(s, what, &domain);
        let errno = *s.pick(&[libc::EIO, libc::ENOMEM, libc::ENETDOWN, libc::EPERM]);
        let mut e = inject::Errors::default();
        let mut lost = 0;
        if k + 1 < n {
            match s.below(3) {
                0 => e.recv = Some((s.below(8), errno)),
                1 => e.send = Some((0, errno)),
                _ if resolver => {}
                _ => {
                    lost = s.range(1, 4);
                    e.send = Some((lost as u64, errno));
                }
            }
        }
        client.times(LONG, if lost > 0 { Duration::from_millis(4) } else { LONG });
        ctx.note(|| format!("{} {} {e:?}", if asy { "async" } else { "sync" }, a.show()));
        ctx.steps += 1;
        let at = |m: String| format!("call {k}, {e:?}: {m}");
        let a2 = a.clone();
        let job = start(client, move |c| inject::errors(e, || c.call(&a2)));
        if e.send.is_none() {
            let (b, from) = net::recv(&sock).map_err(|x| at(format!("no query received: {x}")))?;
            let id = a.check_query(&b).map_err(at)?;
            let mut v = a.answers(id, &domain);
            while s.more(v.len(), 1, 8) {
                let at = s.below(v.len() as u64) as usize;
                v.insert(at, gen_noise(s, &a));
            }
            for b in v {
                sock.send_to(&b, from).map_err(|e| format!("HARNESS: send: {e}"))?;
            }
        }
        let (c, ((r, g), hits)) = job.wait("a call whose system calls fail")?;
        client = c;
        if hits > 0 {
            ctx.nontrivial = true;
            ctx.class(if e.recv.is_some() {
                "receiving fails"
            } else if lost > 0 {
                "sending again fails"
            } else {
                "sending fails"
            });
            match &r {
                Ok(()) => return Err(at(format!("{} ends without error", a.show()))),
                Err(x) if timed_out(x) => return Err(at(format!("{} ends with a timeout: {x:?}", a.show()))),
                Err(_) => {}
            }
            ensure!(g.ips.is_empty() && g.details.is_none() && a.found.starts_with(&g.found), "{}", at(format!("{} gave {g:?}", a.show())));
        } else {
            ensure!(e.send.is_none(), "{}", at(format!("{} ends without having sent that often: {r:?}", a.show())));
            r.map_err(|x| at(format!("{}: {x}", a.show())))?;
            check_gave(&a, g).map_err(at)?;
        }
        pending(&sock);
    }
    Ok(())
}

/// One of two clients of an advertiser cannot be sent to.
fn failing_answers(s: &mut Src, ctx: &mut Ctx) -> Res {
    let setup = Setup::gen(s, 2, 6);
    let host = vec![setup.host.clone(), b"local".to_vec()];
    let records = setup.records();
    let asy = s.bool();
    let errno = *s.pick(&[libc::EPERM, libc::ENOBUFS, libc::ENETUNREACH, libc::EHOSTUNREACH, libc::EIO, libc::EINVAL, libc::EMSGSIZE, libc::ENOMEM]);
    ctx.class(if asy { "async advertiser" } else { "advertiser" });
    ctx.note(|| format!("{} error {errno}", setup.show()));
    let victim = client_socket()?;
    let port = victim.local_addr().map_err(|e| format!("HARNESS: {e}"))?.port();
    let e = inject::Errors { send: Some((0, errno)), send_port: Some(port), ..Default::default() };
    let mut adv = Daemon::injected_advertiser(&setup, asy, false, Inject::Errors(e));
    ready(&mut adv, &host)?;
    let mut rounds = 0;
    while rounds == 0 || s.more(rounds, 1, 3) {
        rounds += 1;
        let mut k = 0;
        while k == 0 || s.more(k, 2, 6) {
            k += 1;
            ctx.steps += 1;
            let mut b = if s.bool() { query_for(&host, s.u16()) } else { gen_sent(s, &records) };
            b.truncate(MDNS_BUFFER_SIZE);
            ctx.nontrivial |= setup.build().handle_packet(&b).is_ok_and(|r| r.is_some());
            victim.send_to(&b, dest(s)).map_err(|e| format!("HARNESS: send: {e}"))?;
        }
        serves(s, ctx, &mut adv, &setup, false).map_err(|e| format!("{e}; answers to another client failed with error {errno}"))?;
    }
    Ok(())
}
