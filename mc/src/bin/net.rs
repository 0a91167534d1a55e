//! C13: the framing of messages between peers. C15: the synchronization tasks of two peers.
//!
//! The real tasks are polled by hand, in all orders up to a bound, over a byte stream whose
//! segmentation and windows are part of what is enumerated.

#[path = "../world.rs"]
mod world;

use automerge::sync::{Message, State as SyncState, SyncDoc};
use automerge::{transaction::Transactable, AutoCommit, ObjType};
use ethersync::peer::verif::{protocol_handler, sync_actor};
use mc::*;
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use tokio::runtime::{Builder, RngSeed, Runtime};
use tokio::sync::mpsc;
use world::*;

// ---------------------------------------------------------------------------------------------
// The byte stream

#[derive(Default)]
struct Direction {
    /// Written, but not yet at the other side.
    flying: VecDeque<u8>,
    arrived: VecDeque<u8>,
    window: usize,
    closed: bool,
    /// Nobody will read any more.
    broken: bool,
    reader: Option<Waker>,
    writer: Option<Waker>,
    /// Bytes arrive as soon as they are written.
    immediate: bool,
}

type Shared = Arc<Mutex<Direction>>;

fn direction(window: usize, immediate: bool) -> Shared {
    Arc::new(Mutex::new(Direction { window, immediate, ..Default::default() }))
}

fn deliver(d: &Shared, n: usize) {
    let mut d = d.lock().unwrap();
    let n = n.min(d.flying.len());
    let bytes: Vec<u8> = d.flying.drain(..n).collect();
    d.arrived.extend(bytes);
    if let Some(w) = d.reader.take() {
        w.wake();
    }
}

fn close(d: &Shared) {
    let mut d = d.lock().unwrap();
    d.closed = true;
    if let Some(w) = d.reader.take() {
        w.wake();
    }
}

fn break_off(d: &Shared) {
    let mut d = d.lock().unwrap();
    d.broken = true;
    if let Some(w) = d.writer.take() {
        w.wake();
    }
}

struct End {
    input: Shared,
    output: Shared,
}

impl futures::AsyncRead for End {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut d = self.input.lock().unwrap();
        if d.arrived.is_empty() {
            if d.closed {
                return Poll::Ready(Ok(0));
            }
            d.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.len().min(d.arrived.len());
        for b in buf.iter_mut().take(n) {
            *b = d.arrived.pop_front().unwrap();
        }
        if let Some(w) = d.writer.take() {
            w.wake();
        }
        Poll::Ready(Ok(n))
    }
}

impl futures::AsyncWrite for End {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut d = self.output.lock().unwrap();
        if d.broken {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let room = d.window.saturating_sub(d.flying.len() + d.arrived.len());
        let n = room.min(buf.len());
        if n == 0 && !buf.is_empty() {
            d.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if d.immediate {
            d.arrived.extend(&buf[..n]);
            if let Some(w) = d.reader.take() {
                w.wake();
            }
        } else {
            d.flying.extend(&buf[..n]);
        }
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }

    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        close(&self.output);
        Poll::Ready(Ok(()))
    }
}

// ---------------------------------------------------------------------------------------------
// Polling by hand

struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

struct Task {
    name: String,
    future: Option<Pin<Box<dyn Future<Output = bool>>>>,
    flag: Arc<Flag>,
    /// Whether it ended without an error.
    ended: Option<bool>,
}

impl Task {
    fn new(name: &str, future: impl Future<Output = anyhow::Result<()>> + 'static) -> Self {
        Self {
            name: name.to_string(),
            future: Some(Box::pin(async move { future.await.is_ok() })),
            flag: Arc::new(Flag(AtomicBool::new(true))),
            ended: None,
        }
    }

    fn ready(&self) -> bool {
        self.future.is_some() && self.flag.0.load(Ordering::SeqCst)
    }

    /// `first`: which branch a `select!` looks at first.
    fn poll(&mut self, ctx: &mut Ctx, first: usize) -> Res {
        ctx.step();
        note!(ctx, "{} runs (order {first})", self.name);
        self.flag.0.store(false, Ordering::SeqCst);
        let waker = Waker::from(self.flag.clone());
        let Some(future) = &mut self.future else { return Ok(()) };
        let rt = ordered_runtime(first);
        let result = rt.block_on(async {
            // Not limited by tokio's cooperative budget, which is not part of the logic.
            std::future::poll_fn(|_| {
                let mut cx = Context::from_waker(&waker);
                Poll::Ready(tokio::task::unconstrained(future.as_mut()).as_mut_poll(&mut cx))
            })
            .await
        });
        check_panics(&format!("{} failed", self.name))?;
        if let Poll::Ready(ok) = result {
            note!(ctx, "{} ended ({})", self.name, if ok { "fine" } else { "error" });
            self.ended = Some(ok);
            self.future = None;
        }
        Ok(())
    }
}

trait PollOnce {
    type Output;
    fn as_mut_poll(self, cx: &mut Context<'_>) -> Poll<Self::Output>;
}

impl<F: Future + Unpin> PollOnce for F {
    type Output = F::Output;
    fn as_mut_poll(mut self, cx: &mut Context<'_>) -> Poll<F::Output> {
        Pin::new(&mut self).poll(cx)
    }
}

const ORDERS: usize = 2;

/// A runtime in which `select!` with two branches starts with the given one (several times).
fn ordered_runtime(first: usize) -> Runtime {
    static SEEDS: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    fn build(seed: u32) -> Runtime {
        Builder::new_current_thread()
            .rng_seed(RngSeed::from_bytes(&seed.to_le_bytes()))
            .build()
            .unwrap()
    }
    let seeds = SEEDS.get_or_init(|| {
        (0..ORDERS as u32)
            .map(|wanted| {
                (0..100_000)
                    .find(|seed| {
                        build(*seed).block_on(async {
                            (0..5).all(|_| tokio::macros::support::thread_rng_n(2) == wanted)
                        })
                    })
                    .expect("no seed found")
            })
            .collect()
    });
    build(seeds[first])
}

// ---------------------------------------------------------------------------------------------
// C13

/// Some different sync messages, small ones first.
fn messages(n: usize, start: usize) -> Vec<Message> {
    (start..start + n)
        .map(|i| {
            let mut doc = AutoCommit::new();
            doc.set_actor(automerge::ActorId::from(&[i as u8 + 1][..]));
            let mut other = SyncState::new();
            if i % 2 == 1 {
                let t = doc.put_object(automerge::ROOT, "t", ObjType::Text).unwrap();
                doc.splice_text(&t, 0, 0, &"x".repeat(i)).unwrap();
            }
            let message = doc.sync().generate_sync_message(&mut other);
            message.unwrap()
        })
        .collect()
}

fn big_messages(n: usize, start: usize, size: usize) -> Vec<Message> {
    (start..start + n)
        .map(|i| {
            let mut doc = AutoCommit::new();
            doc.set_actor(automerge::ActorId::from(&[i as u8 + 1][..]));
            for k in 0..size {
                doc.put(automerge::ROOT, format!("{k}"), k as i64).unwrap();
                doc.commit();
            }
            let mut other = AutoCommit::new();
            let (mut s, mut t) = (SyncState::new(), SyncState::new());
            let m = other.sync().generate_sync_message(&mut t).unwrap();
            doc.sync().receive_sync_message(&mut s, m).unwrap();
            let message = doc.sync().generate_sync_message(&mut s);
            message.unwrap()
        })
        .collect()
}

/// A message of exactly this many bytes (which cannot be compressed).
fn long_message(start: usize, length: usize) -> Message {
    let message = |size: usize| {
        let mut x = 1 + start as u32;
        let bytes: Vec<u8> = std::iter::repeat_with(|| {
            x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
            (x >> 24) as u8
        })
        .take(size)
        .collect();
        let mut doc = AutoCommit::new();
        doc.set_actor(automerge::ActorId::from(&[start as u8 + 1][..]));
        doc.put(automerge::ROOT, "b", automerge::ScalarValue::Bytes(bytes)).unwrap();
        doc.commit();
        let mut other = AutoCommit::new();
        let (mut s, mut t) = (SyncState::new(), SyncState::new());
        let m = other.sync().generate_sync_message(&mut t).unwrap();
        doc.sync().receive_sync_message(&mut s, m).unwrap();
        let message = doc.sync().generate_sync_message(&mut s);
        message.unwrap()
    };
    let mut size = length;
    for _ in 0..20 {
        let m = message(size);
        let got = m.clone().encode().len();
        if got == length {
            return m;
        }
        size = (size + length).saturating_sub(got);
    }
    engine_error(&format!("no message of {length} bytes"))
}

/// A message of a certain length between two short ones.
fn lengths(ctx: &mut Ctx, lengths: &[usize]) -> Res {
    let length = ctx.pick(lengths);
    let window = ctx.pick(&[usize::MAX, 1 << 16, 5000]);
    let (a, b, _ab, _ba) = pair(window, true);
    let mut from_a = messages(1, 0);
    from_a.push(long_message(1, length));
    from_a.extend(messages(1, 2));
    let from_b = vec![long_message(3, length)];
    let mut sides = [side("A", a, &from_a, 16), side("B", b, &from_b, 16)];
    let mut left = 1;
    for _ in 0..1_000_000 {
        let mut acts: Vec<(usize, u8)> = vec![];
        for (i, s) in sides.iter_mut().enumerate() {
            s.take();
            if !s.to_send.is_empty() {
                acts.push((i, 0));
            }
        }
        for (i, s) in sides.iter().enumerate() {
            if s.handler.ready() {
                acts.push((i, 1));
            }
        }
        if acts.is_empty() {
            break;
        }
        let k = if left > 0 && acts.len() > 1 && ctx.flip() {
            left -= 1;
            acts.len() - 1
        } else {
            0
        };
        let (i, what) = acts[k];
        if what == 0 {
            sides[i].send(ctx);
        } else {
            sides[i].handler.poll(ctx, 0)?;
        }
    }
    for s in &mut sides {
        s.take();
        ensure!(s.handler.ended.is_none(), "{} ended", s.handler.name);
    }
    ctx.state(&(length, window));
    check_received(&sides[0], &from_b, true)?;
    check_received(&sides[1], &from_a, true)
}

struct Side {
    handler: Task,
    to_peer: Option<mpsc::Sender<Message>>,
    from_peer: mpsc::Receiver<Message>,
    to_send: VecDeque<Message>,
    received: Vec<Vec<u8>>,
    queued: usize,
}

fn side(name: &str, end: End, messages: &[Message], capacity: usize) -> Side {
    let (to_peer, to_peer_rx) = mpsc::channel(16);
    let (from_peer_tx, from_peer) = mpsc::channel(capacity);
    Side {
        handler: Task::new(name, protocol_handler(end, from_peer_tx, to_peer_rx)),
        to_peer: Some(to_peer),
        from_peer,
        to_send: messages.iter().cloned().collect(),
        received: vec![],
        queued: 0,
    }
}

impl Side {
    /// Hands the next message to the handler.
    fn send(&mut self, ctx: &mut Ctx) {
        if let (Some(m), Some(tx)) = (self.to_send.pop_front(), &self.to_peer) {
            note!(ctx, "a message of {} bytes for {}", m.clone().encode().len(), self.handler.name);
            let _ = tx.try_send(m);
            self.queued += 1;
        }
    }

    fn take(&mut self) {
        while let Ok(m) = self.from_peer.try_recv() {
            self.received.push(m.encode());
        }
    }
}

fn encoded(messages: &[Message]) -> Vec<Vec<u8>> {
    messages.iter().map(|m| m.clone().encode()).collect()
}

fn pair(window: usize, immediate: bool) -> (End, End, Shared, Shared) {
    let (ab, ba) = (direction(window, immediate), direction(window, immediate));
    (
        End { input: ba.clone(), output: ab.clone() },
        End { input: ab.clone(), output: ba.clone() },
        ab,
        ba,
    )
}

fn check_received(side: &Side, wanted: &[Message], complete: bool) -> Res {
    let wanted = encoded(wanted);
    let n = side.received.len();
    ensure!(
        n <= wanted.len() && side.received == wanted[..n],
        "{} passed on something else than what was sent",
        side.handler.name
    );
    if complete {
        ensure!(n == wanted.len(), "{} passed on only {n} of {} messages", side.handler.name, wanted.len());
    }
    Ok(())
}

/// Bytes arrive in up to `cuts`+1 pieces; at each cut the receiver may have something to send.
fn segments(ctx: &mut Ctx, n: usize, cuts: usize) -> Res {
    let (a, b, ab, ba) = pair(usize::MAX, false);
    let (from_a, from_b) = (messages(n, 0), messages(cuts + 1, 4));
    let mut a = side("A", a, &from_a, 16);
    let mut b = side("B", b, &from_b, 16);
    for _ in 0..n {
        a.send(ctx);
    }
    a.handler.poll(ctx, 0)?;
    b.handler.poll(ctx, 0)?;
    let total = ab.lock().unwrap().flying.len();
    ensure!(
        total == encoded(&from_a).iter().map(|m| m.len() + 4).sum::<usize>(),
        "A does not send what it was given"
    );
    let mut at = 0;
    for c in 0..=cuts {
        let piece = if c == cuts { total - at } else { ctx.choose(total - at + 1) };
        if piece > 0 {
            note!(ctx, "{piece} bytes arrive at B");
            deliver(&ab, piece);
            at += piece;
        }
        // Something to send while a part of a message has arrived: before or after B has seen it.
        let order = match ctx.choose(3) {
            0 => None,
            1 => {
                b.send(ctx);
                Some(ctx.choose(ORDERS))
            }
            _ => {
                if b.handler.ready() {
                    b.handler.poll(ctx, 0)?;
                }
                b.send(ctx);
                Some(0)
            }
        };
        while b.handler.ready() {
            b.handler.poll(ctx, order.unwrap_or(0))?;
        }
        b.take();
        check_received(&b, &from_a, false)?;
        ctx.state(&(c, at, b.received.len(), b.queued));
    }
    check_received(&b, &from_a, true)?;
    deliver(&ba, usize::MAX);
    while a.handler.ready() {
        a.handler.poll(ctx, 0)?;
    }
    a.take();
    check_received(&a, &from_b[..b.queued], true)?;
    ensure!(a.handler.ended.is_none() && b.handler.ended.is_none(), "the exchange ended");
    Ok(())
}

/// Both sides send at once over narrow windows, scheduled in all orders with few deviations.
fn windows(ctx: &mut Ctx, n: usize, window: usize, capacity: usize, deviations: usize, big: usize) -> Res {
    let (a, b, _ab, _ba) = pair(window, true);
    let (from_a, from_b) = if big > 0 {
        (big_messages(n, 0, big), big_messages(n, 5, big))
    } else {
        (messages(n, 0), messages(n, 4))
    };
    let mut sides = [side("A", a, &from_a, capacity), side("B", b, &from_b, capacity)];
    let mut left = deviations;
    for _ in 0..100_000 {
        // In turns, except for the deviations.
        let mut acts: Vec<(usize, u8)> = vec![];
        for (i, s) in sides.iter_mut().enumerate() {
            s.take();
            if !s.to_send.is_empty() {
                acts.push((i, 0));
            }
        }
        for (i, s) in sides.iter().enumerate() {
            if s.handler.ready() {
                acts.push((i, 1));
            }
        }
        if acts.is_empty() {
            break;
        }
        let k = if left > 0 { ctx.choose(acts.len()) } else { 0 };
        if k > 0 {
            left -= 1;
        }
        let (i, what) = acts[k];
        if what == 0 {
            sides[i].send(ctx);
        } else {
            let order = if left > 0 { ctx.choose(ORDERS) } else { 0 };
            if order > 0 {
                left -= 1;
            }
            sides[i].handler.poll(ctx, order)?;
        }
        let got = (sides[0].received.len(), sides[1].received.len());
        ctx.state(&(got, sides[0].queued, sides[1].queued));
    }
    for s in &mut sides {
        s.take();
        ensure!(s.handler.ended.is_none(), "{} ended", s.handler.name);
    }
    check_received(&sides[0], &from_b, true)?;
    check_received(&sides[1], &from_a, true)
}

/// The connection ends after some bytes, in one or both directions.
fn endings(ctx: &mut Ctx, n: usize) -> Res {
    let (a, b, ab, ba) = pair(usize::MAX, false);
    let (from_a, from_b) = (messages(n, 0), messages(1, 4));
    let mut a = side("A", a, &from_a, 16);
    let mut b = side("B", b, &from_b, 16);
    for _ in 0..n {
        a.send(ctx);
    }
    a.handler.poll(ctx, 0)?;
    b.handler.poll(ctx, 0)?;
    let total = ab.lock().unwrap().flying.len();
    let cut = ctx.choose(total + 1);
    let early = ctx.flip();
    note!(ctx, "the connection ends after {cut} of {total} bytes");
    deliver(&ab, cut);
    if early {
        while b.handler.ready() {
            b.handler.poll(ctx, 0)?;
        }
    }
    close(&ab);
    let sending = ctx.flip();
    let order = if sending {
        b.send(ctx);
        if ctx.flip() {
            break_off(&ba);
        }
        ctx.choose(ORDERS)
    } else {
        0
    };
    for _ in 0..1000 {
        if b.handler.ready() {
            b.handler.poll(ctx, order)?;
        }
    }
    b.take();
    ensure!(b.handler.ended.is_some(), "B goes on although the connection has ended");
    check_received(&b, &from_a, false)?;
    let mut complete = 0;
    let mut sum = 0;
    for m in encoded(&from_a) {
        sum += m.len() + 4;
        complete += (sum <= cut) as usize;
    }
    // What was complete was passed on, unless the other direction broke at the same time.
    ensure!(
        b.received.len() == complete || sending,
        "B passed on {} instead of {complete} messages",
        b.received.len()
    );
    ctx.state(&(cut, b.received.len(), sending));
    Ok(())
}

/// Something else than messages arrives.
fn garbage(ctx: &mut Ctx) -> Res {
    let (_a, b, ab, _ba) = pair(usize::MAX, false);
    let good = messages(1, 1);
    let m = good[0].clone().encode();
    let mut b = side("B", b, &[], 16);
    let kind = ctx.choose(6);
    // Some altered messages are messages as well.
    let mut body = vec![];
    let frame = |bytes: &[u8]| {
        let mut f = (bytes.len() as u32).to_be_bytes().to_vec();
        f.extend(bytes);
        f
    };
    let mut bytes = vec![];
    if ctx.flip() {
        bytes.extend(frame(&m));
    }
    let valid = bytes.len();
    match kind {
        0 => bytes.extend(frame(&[])),
        1 => {
            let n = ctx.choose(m.len());
            body = m[..n].to_vec();
            bytes.extend(frame(&body))
        }
        2 => {
            let c = ctx.choose(256) as u8;
            if c == m[0] {
                return Ok(());
            }
            let mut wrong = m.clone();
            wrong[0] = c;
            bytes.extend(frame(&wrong));
            body = wrong;
        }
        3 => bytes.extend(vec![0xff; 1 + ctx.choose(8)]),
        4 => bytes.extend(vec![0; 1 + ctx.choose(8)]),
        _ => bytes.extend(b"GET / HTTP/1.1\r\n\r\n"),
    }
    note!(ctx, "B gets {bytes:?}");
    b.handler.poll(ctx, 0)?;
    ab.lock().unwrap().flying.extend(bytes);
    deliver(&ab, usize::MAX);
    let early = ctx.flip();
    if early {
        while b.handler.ready() {
            b.handler.poll(ctx, 0)?;
        }
        // What is complete and no message ends the exchange.
        if kind == 0 || kind <= 2 && Message::decode(&body).is_err() {
            ensure!(b.handler.ended.is_some(), "B goes on although something else than a message arrived");
        }
    }
    close(&ab);
    while b.handler.ready() {
        b.handler.poll(ctx, 0)?;
    }
    b.take();
    ensure!(b.handler.ended.is_some(), "B goes on although the connection has ended");
    let mut wanted = if valid > 0 { vec![m] } else { vec![] };
    if let (1 | 2, Ok(message)) = (kind, Message::decode(&body)) {
        wanted.push(message.encode());
    }
    ensure!(b.received == wanted, "B passed on {} messages instead of {}", b.received.len(), wanted.len());
    ctx.state(&(kind, valid, b.received.len()));
    Ok(())
}

/// The synchronization task is gone.
fn orphaned(ctx: &mut Ctx) -> Res {
    let (_a, b, ab, _ba) = pair(usize::MAX, false);
    let mut b = side("B", b, &[], 16);
    let when = ctx.flip();
    if when {
        b.handler.poll(ctx, 0)?;
    }
    b.to_peer = None;
    let (_, empty) = mpsc::channel(1);
    b.from_peer = empty;
    if ctx.flip() {
        ab.lock().unwrap().flying.extend({
            let m = messages(1, 1)[0].clone().encode();
            let mut f = (m.len() as u32).to_be_bytes().to_vec();
            f.extend(m);
            f
        });
        deliver(&ab, usize::MAX);
    }
    let order = ctx.choose(ORDERS);
    let mut polls = 0;
    while b.handler.ready() && polls < 100 {
        b.handler.poll(ctx, order)?;
        polls += 1;
    }
    ensure!(b.handler.ended.is_some(), "the handler goes on without its synchronization task");
    Ok(())
}

fn c13(tier: Tier) -> Vec<Scenario> {
    let mut list = vec![];
    let (n, cuts) = (2, tier.pick(2, 3));
    list.push(scenario(
        "segments",
        format!("{n} messages in {} pieces of all lengths, a message in the other direction at each cut, before or after the piece was seen", cuts + 1),
        move |ctx| segments(ctx, n, cuts),
    ));
    list.push(scenario("segments-1", "1 message in 3 pieces of all lengths", move |ctx| segments(ctx, 1, 2)));
    for window in [1, 3, 7, 40] {
        for capacity in [1, 16] {
            let d = tier.pick(if window == 1 { 2 } else { 3 }, if window < 7 { 3 } else { 4 });
            list.push(scenario(
                &format!("windows-{window}-{capacity}"),
                format!("3 messages in each direction, windows of {window} bytes, {capacity} undelivered messages, up to {d} deviations from taking turns"),
                move |ctx| windows(ctx, 3, window, capacity, d, 0),
            ));
        }
    }
    list.push(scenario("windows-big", "2 messages of 300 changes in each direction, windows of 1000 bytes", move |ctx| {
        windows(ctx, 2, 1000, 16, 2, 300)
    }));
    let sizes = [200, 254, 255, 256, 257, 4096, 32_767, 32_768, 65_531, 65_535, 65_536, 65_537, 100_000, tier.pick(1 << 18, 1 << 22)];
    list.push(scenario("lengths", format!("a message of {sizes:?} bytes in each direction, windows of several sizes, 1 deviation"), move |ctx| {
        lengths(ctx, &sizes)
    }));
    list.push(scenario("endings", "the connection ends after every number of bytes", |ctx| endings(ctx, 3)));
    list.push(scenario("garbage", "truncated, altered and foreign bytes", garbage));
    list.push(scenario("orphaned", "the synchronization task ended", orphaned));
    list
}

// ---------------------------------------------------------------------------------------------
// C15

struct Stack {
    node: Node,
    tasks: Vec<Task>,
    /// Number of changes that are still to be made.
    changes: usize,
}

fn stack(ctx: &mut Ctx, name: char, actor: u8, host: bool, end: End, capacity: usize, changes: usize) -> Res<Stack> {
    let mut node = Node::new(ctx, name, actor);
    if host {
        node.write("f", "f");
    }
    node.start(ctx, false, host)?;
    let (to_peer_tx, to_peer_rx) = mpsc::channel(capacity);
    let (from_peer_tx, from_peer_rx) = mpsc::channel(capacity);
    let tasks = vec![
        Task::new(&format!("{name}-sync"), sync_actor(node.handle().clone(), from_peer_rx, to_peer_tx)),
        Task::new(&format!("{name}-net"), protocol_handler(end, from_peer_tx, to_peer_rx)),
    ];
    Ok(Stack { node, tasks, changes })
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sched {
    Run(usize, usize),
    Change(usize),
}

/// `burst`: how many changes happen at once.
fn synchronizing(
    ctx: &mut Ctx,
    changes: [usize; 2],
    burst: usize,
    window: usize,
    capacity: usize,
    deviations: usize,
    pace: u8,
) -> Res {
    let (a, b, _ab, _ba) = pair(window, true);
    let mut stacks = [
        stack(ctx, 'A', 1, true, a, capacity, changes[0])?,
        stack(ctx, 'B', 2, false, b, capacity, changes[1])?,
    ];
    let mut left = deviations;
    let mut turn = 0usize;
    let mut last = None;
    let mut quiet = false;
    let mut made = 0;
    for step in 0..20_000 {
        // Ready tasks in turn, then the changes that are still to be made.
        let mut acts = vec![];
        for t in 0..4 {
            let t = (turn + t) % 4;
            if stacks[t / 2].tasks[t % 2].ready() {
                acts.push(Sched::Run(t / 2, t % 2));
            }
        }
        let idle = acts.is_empty();
        for (i, s) in stacks.iter().enumerate() {
            if s.changes > 0 {
                acts.push(Sched::Change(i));
            }
        }
        if pace == 2 {
            // One change in each round.
            let cycle = [
                Sched::Run(0, 0),
                Sched::Change(0),
                Sched::Run(1, 0),
                Sched::Change(1),
                Sched::Run(0, 1),
                Sched::Run(1, 1),
            ];
            let now = cycle.iter().position(|a| Some(*a) == last).unwrap_or(5);
            acts.sort_by_key(|a| {
                let i = cycle.iter().position(|b| a == b).unwrap();
                (i + 6 - now - 1) % 6
            });
        }
        if pace == 1 {
            // Changes come faster than messages: whenever the synchronization task has nothing to
            // do, and the other tasks only run if all of these wait.
            acts.sort_by_key(|a| match a {
                Sched::Run(_, 0) => 0,
                Sched::Change(_) => 1,
                Sched::Run(..) => 2,
            });
        }
        if acts.is_empty() {
            quiet = true;
            break;
        }
        let k = if left > 0 && !idle { ctx.choose(acts.len()) } else { 0 };
        if k > 0 {
            left -= 1;
        }
        last = Some(acts[k]);
        match acts[k] {
            Sched::Run(i, j) => {
                turn = i * 2 + j + 1;
                let order = if left > 0 { ctx.choose(ORDERS) } else { if pace > 0 { 0 } else { step % ORDERS } };
                if order > 0 && left > 0 {
                    left -= 1;
                }
                stacks[i].tasks[j].poll(ctx, order)?;
            }
            Sched::Change(i) => {
                stacks[i].changes -= 1;
                for _ in 0..burst {
                    made += 1;
                    let name = format!("{i}-{made}");
                    note!(ctx, "{} changes {name}", stacks[i].node.name);
                    stacks[i].node.write(&name, &name);
                    stacks[i].node.created(ctx, &name)?;
                }
            }
        }
        // The document tasks answer right away.
        ctx.rt.block_on(async {
            for _ in 0..4 {
                tokio::task::yield_now().await;
            }
        });
        check_panics("a daemon failed")?;
    }
    ensure!(quiet, "the exchange does not become quiet");
    for s in &stacks {
        for t in &s.tasks {
            ensure!(t.ended.is_none(), "{} ended", t.name);
        }
    }
    let a = stacks[0].node.observe(ctx)?;
    let b = stacks[1].node.observe(ctx)?;
    let missing = |x: &Files, y: &Files| x.keys().filter(|k| !y.contains_key(*k)).cloned().collect::<Vec<_>>();
    ensure!(
        a == b,
        "nothing happens any more, but B lacks {:?} and A lacks {:?}",
        missing(&a, &b),
        missing(&b, &a)
    );
    ensure!(a.len() == made + 1, "only {} of {} files arrived", a.len(), made + 1);
    ctx.state(&(made, deviations - left));
    for s in &mut stacks {
        s.tasks.clear();
        s.node.stop(ctx);
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Create,
    Change,
    Remove,
    OpenNew,
    Type,
    Cursor,
    Leave,
}

/// Every kind of change, made while nothing else is going on or right after another one.
fn kinds(ctx: &mut Ctx, most: usize) -> Res {
    use Kind::*;
    let (a, b, _ab, _ba) = pair(1_000_000, true);
    let mut world = World::default();
    let mut tasks = vec![];
    for (i, end) in [a, b].into_iter().enumerate() {
        let mut s = stack(ctx, ['A', 'B'][i], 1 + i as u8, i == 0, end, 16, 0)?;
        if i == 0 {
            s.node.write("g", "g");
            s.node.created(ctx, "g")?;
        }
        tasks.append(&mut s.tasks);
        world.nodes.push(s.node);
    }
    run_until_quiet(ctx, &mut tasks)?;
    for i in 0..2 {
        let e = world.connect_editor(ctx, ['E', 'F'][i], i)?;
        world.open(ctx, e, "f")?;
    }
    run_until_quiet(ctx, &mut tasks)?;
    let n = 1 + ctx.choose(most);
    for k in 0..n {
        let i = ctx.choose(2);
        let kind = ctx.pick(&[Create, Change, Remove, OpenNew, Type, Cursor, Leave]);
        let name = format!("{i}{k}");
        note!(ctx, "{kind:?} at {}", world.nodes[i].name);
        let connected = world.editors[i].connected();
        match kind {
            Create => {
                world.nodes[i].write(&name, &name);
                world.nodes[i].created(ctx, &name)?;
            }
            Change if world.nodes[i].read("g").is_some() => {
                world.nodes[i].write("g", &name);
                world.nodes[i].changed(ctx, "g")?;
            }
            Remove if world.nodes[i].read("g").is_some() => {
                world.nodes[i].remove("g");
                world.nodes[i].removed(ctx, "g")?;
            }
            OpenNew if connected => {
                world.open(ctx, i, &name)?;
            }
            Type if connected => {
                world.type_text(ctx, i, "f", 0, 0, "t");
                world.deliver_to_daemon(ctx, i)?;
            }
            Cursor if connected => {
                let uri = world.nodes[i].uri("f");
                let at = serde_json::json!({"line": 0, "character": k});
                world.request(i, "cursor", serde_json::json!({"uri": uri, "ranges": [{"start": at, "end": at}]}));
                world.deliver_to_daemon(ctx, i)?;
            }
            Leave if connected => world.disconnect_editor(ctx, i)?,
            _ => return Ok(()),
        }
        ctx.step();
        // The next change follows at once or later.
        if k + 1 < n && ctx.flip() {
            run_until_quiet(ctx, &mut tasks)?;
        }
    }
    run_until_quiet(ctx, &mut tasks)?;
    let files: Vec<Files> = (0..2).map(|i| world.nodes[i].observe(ctx)).collect::<Res<_>>()?;
    let states: Vec<Files> = (0..2).map(|i| world.nodes[i].observe_states(ctx)).collect::<Res<_>>()?;
    ensure!(files[0] == files[1], "nothing happens any more, but A has {:?} and B has {:?}", files[0], files[1]);
    ensure!(
        states[0] == states[1],
        "nothing happens any more, but A has the cursors {:?} and B has {:?}",
        states[0],
        states[1]
    );
    ctx.state(&(format!("{files:?}"), states[0].len()));
    tasks.clear();
    world.shutdown(ctx);
    Ok(())
}

fn run_until_quiet(ctx: &mut Ctx, tasks: &mut [Task]) -> Res {
    for step in 0..20_000 {
        let Some(t) = (0..tasks.len()).map(|t| (step + t) % tasks.len()).find(|t| tasks[*t].ready()) else {
            return Ok(());
        };
        tasks[t].poll(ctx, step % ORDERS)?;
        ctx.rt.block_on(async {
            for _ in 0..4 {
                tokio::task::yield_now().await;
            }
        });
        check_panics("a daemon failed")?;
        ensure!(tasks[t].ended.is_none(), "{} ended", tasks[t].name);
    }
    fail!("the exchange does not become quiet")
}

fn c15(tier: Tier) -> Vec<Scenario> {
    let mut list = vec![];
    let most = tier.pick(3, 4);
    list.push(scenario(
        "kinds",
        format!("up to {most} changes of 7 kinds at either side, at rest or right after each other"),
        move |ctx| kinds(ctx, most),
    ));
    let d = tier.pick(2, 3);
    for (name, changes, burst, window, capacity, dev) in [
        ("steady", [20, 20], 1, 50, 1, 1),
        ("steady-wide", [20, 20], 1, 500, 1, 1),
        ("steady-real-queues", [100, 100], 1, 1000, 16, tier.pick(0, 1)),
        ("eager", [8, 8], 1, 50, 1, 1),
        ("eager-wide", [8, 8], 1, 500, 1, 1),
        ("eager-real-queues", [60, 60], 1, 1000, 16, tier.pick(0, 1)),
        ("plain", [1, 1], 1, 1_000_000, 16, d),
        ("one-side", [0, 2], 1, 1_000_000, 16, d),
        ("two-each", [2, 2], 1, 1_000_000, 16, d),
        ("narrow", [1, 2], 1, 50, 16, d),
        ("small-queues", [1, 2], 1, 50, 1, d),
        ("bursts", [2, 2], 20, 1_000_000, 16, 1),
        ("narrow-bursts", [2, 2], 20, 50, 16, 1),
        ("narrow-bursts-small-queues", [2, 2], 5, 200, 1, 1),
    ] {
        let pace = if name.starts_with("eager") {
            1
        } else if name.starts_with("steady") {
            2
        } else {
            0
        };
        list.push(scenario(
            name,
            format!("{changes:?} times {burst} changes, windows of {window} bytes, {capacity} messages in queues, up to {dev} deviations from taking turns"),
            move |ctx| synchronizing(ctx, changes, burst, window, capacity, dev, pace),
        ));
    }
    let n = tier.pick(2, 3);
    list.push(
        scenario(
            "processes",
            format!("three real daemons, all sequences of {n} of 7 kinds of changes at each of them"),
            move |ctx| {
                use live::Op::*;
                let ops: Vec<live::Op> = (0..3)
                    .flat_map(|i| [Write(i), New(i), Remove(i), Rename(i), Type(i), Hang(i), OpenNew(i)])
                    .collect();
                live::sequence(ctx, 3, &ops, n)
            },
        )
        .waiting(24),
    );
    list
}

fn c27(tier: Tier) -> Vec<Scenario> {
    let step = tier.pick(8, 1);
    let points: Vec<usize> = (0..=1200).step_by(step).collect();
    vec![scenario(
        "interrupted",
        format!("the connection between two real daemons is closed or stands still after any multiple of {step} bytes up to 1200 in one direction, then others join the host or the peer, and the peer comes back"),
        move |ctx| live::interrupted(ctx, &points),
    )
    .waiting(24)]
}

fn main() {
    let o = parse_args();
    let (list, assumptions): (_, &[&str]) = match o.property.as_str() {
        "C13" => (c13(o.tier), &["the transport delivers bytes in order and unaltered"]),
        "C27" => (c27(o.tier), &["others connect after the interruption has been noticed or 30 ms have passed"]),
        "C15" => (
            c15(o.tier),
            &[
                "the transport delivers bytes in order and unaltered",
                "the document task answers before the synchronization task runs again",
            ],
        ),
        p => engine_error(&format!("no check for {p}")),
    };
    run_check(&o, "model_checking", assumptions, list);
}
