//! C27: long use accumulates nothing.

use super::faults::{kind_name, Both};
use super::share::*;
use super::*;
use crate::inject::Held;
use futures_lite::future::poll_once;
use std::sync::atomic::AtomicU64;
use std::sync::Condvar;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        subs: vec![
            nsub("calls", 120, 4_000, c27_calls, "One client (resolver or any search of a discoverer, sync or async) makes 1200-2500 calls, each with names of its own, among them some that fail to send or time out; packets are handed to it by the replaced receive functions. Results must be right, and after the last call the program may hold no more memory, file descriptors or threads (beyond 32 KiB and 16 of each) than after the first quarter. Non-trivial: 1200 calls."),
            nsub("objects", 60, 2_000, c27_objects, "400-800 clients, advertisers and taps are made, used for a call and dropped, with the same measure; constructors fail at times. Non-trivial: always."),
            nsub("abandoned", 60, 2_000, c27_abandoned, "1500-3000 calls of asynchronous clients are polled 1-3 times and dropped, with the same measure. Non-trivial: always."),
            nsub("daemons", 60, 2_000, c27_daemons, "An advertiser (sync or async) or a tap receives 16000 different packets (proper queries, others, damaged ones) from 16000 sources, with the same measure, and goes on serving. Non-trivial: always."),
        ],
        assumptions: vec!["what is held is the bytes the program's Rust code has on the heap (but for the threads that make the cases), the entries of /proc/self/fd, and those of /proc/self/task, of the whole program; one case runs at a time", "caches and pools below 32 KiB (and 16 file descriptors or threads) are accepted"],
    }]
}

static TURN: Mutex<(u64, u64)> = Mutex::new((0, 0));
static NEXT: Condvar = Condvar::new();

/// One case at a time, as what it measures is the whole program's.
struct Turn;

impl Turn {
    fn take() -> Turn {
        let mut t = TURN.lock().unwrap_or_else(|e| e.into_inner());
        let mine = t.0;
        t.0 += 1;
        while t.1 != mine {
            t = NEXT.wait(t).unwrap_or_else(|e| e.into_inner());
        }
        crate::engine::uncounted();
        Held::now();
        // The runtime's own thread and descriptors.
        async_io::block_on(async_io::Timer::after(Duration::from_micros(1)));
        Turn
    }
}

impl Drop for Turn {
    fn drop(&mut self) {
        TURN.lock().unwrap_or_else(|e| e.into_inner()).1 += 1;
        NEXT.notify_all();
    }
}

fn more(now: &Held, then: &Held) -> Option<String> {
    const BYTES: i64 = 32 << 10;
    const THINGS: usize = 16;
    if now.fds > then.fds + THINGS {
        Some(format!("{} file descriptors more", now.fds - then.fds))
    } else if now.threads > then.threads + THINGS {
        Some(format!("{} threads more", now.threads - then.threads))
    } else if now.bytes > then.bytes + BYTES {
        Some(format!("{} bytes more", now.bytes - then.bytes))
    } else {
        None
    }
}

/// Threads may still be about to end.
fn check_held(then: &Held, what: &str) -> Res {
    let t0 = Instant::now();
    loop {
        match more(&Held::now(), then) {
            None => return Ok(()),
            Some(m) if t0.elapsed() > Duration::from_secs(1) => return Err(format!("after {what} the program holds {m} than after a quarter of them")),
            Some(_) => std::thread::sleep(Duration::from_millis(10)),
        }
    }
}

/// Names no case has used before, as something may be kept for the whole program.
fn fresh() -> u64 {
    static USED: AtomicU64 = AtomicU64::new(0);
    USED.fetch_add(1, SeqCst)
}

/// Another ask like this one, with names of its own.
fn own(a: &Ask, domain: &Name) -> Ask {
    let mut a = a.clone();
    let i = fresh();
    let l = |p: &str| format!("{p}{i}").into_bytes();
    match a.what {
        RESOLVE => match a.owner.first_mut() {
            Some(f) => *f = l("h"),
            None => a.owner.push(l("h")),
        },
        2 => {
            a.id.0 = l("i");
            a.owner = owner_of(2, &a.id, domain);
            a.kv.push([l("k"), b"=v".to_vec()].concat());
            a.kv.retain(|e| !e.is_empty());
            a.host.insert(0, l("h"));
        }
        w => {
            if w == 0 {
                a.id.1 = l("_s");
                a.owner = owner_of(0, &a.id, domain);
            }
            for (j, f) in a.found.iter_mut().enumerate() {
                if w == 0 {
                    f.0 = l(&format!("{j}-"));
                } else {
                    f.1 = l(&format!("_{j}-"));
                }
            }
        }
    }
    a
}

/// A call that is answered from memory.
fn answered(c: &mut Both, a: &Ask, noise: &[Vec<u8>], from: SocketAddr, domain: &Name) -> Res {
    let mut packets = noise.to_vec();
    packets.extend(a.answers(0, domain));
    let f = inject::Flood { packets, from, once: true, echo_from: Some(noise.len()), wake: true, limit: LONG, ..Default::default() };
    let ((r, g), _) = inject::flood(f, || c.call(a));
    r.map_err(|e| format!("{}: {e}", a.show()))?;
    check_gave(a, g)
}

fn gen_asks(s: &mut Src, what: usize, domain: &Name) -> Vec<(Ask, Vec<Vec<u8>>)> {
    let mut v = Vec::new();
    while v.len() < 2 || s.more(v.len(), 1, 3) {
        let a = Ask::gen(s, what, domain);
        let mut noise = Vec::new();
        while s.more(noise.len(), 1, 3) {
            noise.push(gen_noise(s, &a));
        }
        v.push((a, noise));
    }
    v
}

fn c27_calls(s: &mut Src, ctx: &mut Ctx) -> Res {
    let _turn = Turn::take();
    let what = s.below(4) as usize;
    let asy = s.bool();
    let v6 = s.chance(1, 4) && net::have_v6();
    let domain = gen_domain(s);
    let asks = gen_asks(s, what, &domain);
    let n = s.range(1_200, 2_500);
    let fails = s.below(4) as usize * 8;
    let silent = s.below(3) as usize * 150;
    let logs = s.chance(1, 4);
    ctx.class(kind_name(what));
    ctx.class(if asy { "async" } else { "sync" });
    ctx.class_if(fails > 0, "failing calls");
    ctx.class_if(silent > 0, "unanswered calls");
    ctx.note(|| format!("{} {} {n} calls like {}, failing every {fails}, unanswered every {silent}", if asy { "async" } else { "sync" }, kind_name(what), asks.iter().map(|a| a.0.show()).collect::<Vec<_>>().join("; ")));
    ctx.steps += n as u64;
    ctx.nontrivial = true;
    let (_sock, addr) = net::server(v6);
    let client = Both::new(what, asy, addr, &domain)?;
    let job = start(client, move |c| -> Res {
        logcap::enable(logs);
        c.times(LONG, LONG);
        let mut then = None;
        for i in 0..n {
            if i == n / 4 {
                then = Some(Held::now());
            }
            let (a, noise) = &asks[i % asks.len()];
            let a = own(a, &domain);
            if fails > 0 && i % fails == 1 {
                let e = inject::Errors { send: Some((0, libc::EPERM)), ..Default::default() };
                let ((r, _), hits) = inject::errors(e, || c.call(&a));
                ensure!(hits == 0 || r.is_err(), "call {i}: {} ends without error, but could not send", a.show());
            } else if silent > 0 && i % silent == 2 {
                c.times(Duration::from_millis(3), Duration::from_millis(1));
                let _ = c.call(&a);
                c.times(LONG, LONG);
            } else {
                answered(c, &a, noise, addr, &domain).map_err(|e| format!("call {i}: {e}"))?;
            }
        }
        check_held(&then.unwrap(), &format!("{n} calls of one client"))
    });
    job.wait("a client in long use")?.1
}

fn c27_objects(s: &mut Src, ctx: &mut Ctx) -> Res {
    let _turn = Turn::take();
    let domain = gen_domain(s);
    let asks: Vec<_> = (0..4).flat_map(|w| gen_asks(s, w, &domain)).collect();
    let n = s.range(400, 800);
    let (fails, stride) = (s.below(3) as usize * 6, s.range(1, 7));
    let setup = Setup::gen(s, 1, 4);
    let v6 = s.chance(1, 4) && net::have_v6();
    ctx.note(|| format!("{n} objects, failing every {fails}; {}", setup.show()));
    ctx.class_if(fails > 0, "failing constructors");
    ctx.steps += n as u64;
    ctx.nontrivial = true;
    let (_sock, addr) = net::server(v6);
    let job = start((), move |_| -> Res {
        let mut then = None;
        for i in 0..n {
            if i == n / 4 {
                then = Some(Held::now());
            }
            let asy = i / 3 % 2 == 0;
            if fails > 0 && i % fails == 1 {
                let no = Some((u64::MAX, libc::EMFILE));
                let e = if i % 2 == 0 { inject::Errors { socket: no, ..Default::default() } } else { inject::Errors { bind: no, ..Default::default() } };
                let (r, hits) = inject::errors(e, || match i / fails % 4 {
                    0 if asy => AsyncAdvertiser::new(ulabel(&setup.host), setup.addr).map(drop).map_err(|e| e.to_string()),
                    0 => setup.build().create_socket().map(drop).map_err(|e| e.to_string()),
                    1 => SyncTap::new().map(drop).map_err(|e| e.to_string()),
                    _ => Both::new(asks[i % asks.len()].0.what, asy, addr, &domain).map(drop),
                });
                ensure!(hits == 0 || r.is_err(), "object {i} was made without a socket");
                continue;
            }
            if i % 5 == 4 && net::have_multicast() {
                let host = ulabel(&setup.host);
                if asy {
                    let mut a = AsyncAdvertiser::new(host, setup.addr).map_err(|e| format!("object {i}: an advertiser: {e}"))?;
                    for r in &setup.regs {
                        register(&mut a, r);
                    }
                    let _ = async_io::block_on(poll_once(a.listen()));
                } else if i % 2 == 0 {
                    setup.build().create_socket().map_err(|e| format!("object {i}: an advertiser's socket: {e}"))?;
                } else {
                    SyncTap::new().map_err(|e| format!("object {i}: a tap: {e}"))?;
                }
                continue;
            }
            let (a, noise) = &asks[i * stride % asks.len()];
            let mut c = Both::new(a.what, asy, addr, &domain)?;
            c.times(LONG, LONG);
            answered(&mut c, &own(a, &domain), noise, addr, &domain).map_err(|e| format!("object {i}: {e}"))?;
        }
        check_held(&then.unwrap(), &format!("making and dropping {n} objects"))
    });
    job.wait("making and dropping objects")?.1
}

fn c27_abandoned(s: &mut Src, ctx: &mut Ctx) -> Res {
    let _turn = Turn::take();
    let what = s.below(4) as usize;
    let v6 = s.chance(1, 4) && net::have_v6();
    let domain = gen_domain(s);
    let asks = gen_asks(s, what, &domain);
    let n = s.range(1_500, 3_000);
    let polls: Vec<usize> = (0..4).map(|_| s.range(1, 3)).collect();
    let renew = s.below(3) as usize * 16;
    ctx.note(|| format!("{n} calls like {}, polled {polls:?} times, a new client after {renew}", asks.iter().map(|a| a.0.show()).collect::<Vec<_>>().join("; ")));
    ctx.class(kind_name(what));
    ctx.class_if(renew > 0, "several clients");
    ctx.steps += n as u64;
    ctx.nontrivial = true;
    let (_sock, addr) = net::server(v6);
    let client = Client::new(what, addr, &domain)?;
    let job = start(client, move |c| -> Res {
        let mut then = None;
        for i in 0..n {
            if i == n / 4 {
                then = Some(Held::now());
            }
            if renew > 0 && i % renew == 0 {
                *c = Client::new(what, addr, &domain)?;
            }
            let (a, noise) = &asks[i % asks.len()];
            let a = own(a, &domain);
            let f = inject::Flood { packets: noise.clone(), from: addr, once: true, limit: LONG, ..Default::default() };
            inject::flood(f, || {
                async_io::block_on(async {
                    let mut call = Box::pin(c.call(&a));
                    for _ in 0..polls[i % polls.len()] {
                        if let Some(r) = poll_once(&mut call).await {
                            return Err(format!("call {i}: {} ended unanswered: {r:?}", a.show()));
                        }
                    }
                    Ok(())
                })
            })
            .0?;
        }
        // The client is still of use.
        let (a, noise) = &asks[0];
        let mut packets = noise.clone();
        packets.extend(a.answers(0, &domain));
        let f = inject::Flood { packets, from: addr, once: true, echo_from: Some(noise.len()), wake: true, limit: LONG, ..Default::default() };
        let g = inject::flood(f, || async_io::block_on(c.call(a))).0.map_err(|e| format!("after {n} abandoned calls: {e}"))?;
        check_gave(a, g)?;
        check_held(&then.unwrap(), &format!("{n} abandoned calls"))
    });
    job.wait("abandoned calls")?.1
}

fn c27_daemons(s: &mut Src, ctx: &mut Ctx) -> Res {
    let _turn = Turn::take();
    const N: usize = 16_000;
    let setup = Setup::gen(s, 2, 8);
    let host = vec![setup.host.clone(), b"local".to_vec()];
    let records = setup.records();
    let k = s.range(3, 16);
    let base: Vec<Msg> = (0..k).map(|_| gen_query(s, &records, 1, 4)).collect();
    let (junk, answers) = (s.below(4) as usize, s.below(4) as usize);
    let what = s.below(3);
    let name = ["a tap", "an advertiser", "an async advertiser"][what as usize];
    ctx.note(|| format!("{name} {} {:?}", setup.show(), base.iter().map(show_msg).collect::<Vec<_>>()));
    ctx.class(name);
    ctx.steps += N as u64;
    ctx.nontrivial = true;
    let packets: Vec<Vec<u8>> = (0..N)
        .map(|i| {
            let mut m = base[i % k].clone();
            m.id = (i * 7) as u16;
            let own: Label = format!("host-{}", fresh()).into_bytes();
            if answers > 0 && i % (answers * 5) == 0 {
                m.flags |= QR;
            }
            match i % 3 {
                0 => m.q.insert(0, Q { name: vec![own, b"_tcp".to_vec(), b"local".to_vec()], qtype: 12, qclass: 1, qu: true }),
                1 => m.q.push(Q { name: vec![own, b"local".to_vec()], qtype: 255, qclass: 1, qu: false }),
                _ => m.rr[1].push(RR { name: vec![own], class: 1, flush: false, ttl: i as u32, data: RData::A((i as u32).to_be_bytes()) }),
            }
            let mut b = encode(&m, if i % 3 == 0 { Compress::Max } else { Compress::Never }).bytes;
            if junk > 0 && i % (junk * 5) == 1 {
                b.truncate(12 + i % 20);
            }
            b
        })
        .collect();
    let held: Arc<Mutex<Vec<Held>>> = Default::default();
    let f = inject::Flood { packets, vary: true, total: Some(N as u64), limit: LONG * 4, held: Some(held.clone()), ..Default::default() };
    let mut d = match what {
        0 => Daemon::flooded_tap(None, Some(f)),
        w => Daemon::injected_advertiser(&setup, w == 2, s.chance(1, 4), Inject::Flood(f)),
    };
    let t0 = Instant::now();
    let then = loop {
        if let [then, _] = held.lock().unwrap_or_else(|e| e.into_inner())[..] {
            break then;
        }
        if d.dead() {
            return Err(format!("{name} ended: {}", d.reason()));
        }
        if t0.elapsed() > LONG * 4 {
            return Err(format!("{name} has not received {N} packets within {:?}", LONG * 4));
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    check_held(&then, &format!("{name} received {N} packets"))?;
    if what > 0 {
        ready(&mut d, &host).map_err(|e| format!("{e}, after {N} packets"))?;
    }
    Ok(())
}
