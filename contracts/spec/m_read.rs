verus! {

// ---------------------------------------------------------------------------
// Readers. A source is known by what it is going to deliver: bytes and faults. How many
// bytes it hands out at a time is up to the source.

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

pub enum Event { Byte(u8), Fault(std::io::Error) }

pub open spec fn byte_at(s: Seq<Event>, i: int) -> u8 { match s[i] { Event::Byte(b) => b, _ => 0 } }

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(ReadSpec via ReadSpecImpl)]
pub trait ExRead {
    type ExternalTraitSpecificationFor: std::io::Read;
    spec fn events(&self) -> Seq<Event>;
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, std::io::Error>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            got_some(r, old(self).events(), final(self).events(), old(buf)@.len() as int, final(buf)@);
}

pub open spec fn got_some(r: Result<usize, std::io::Error>, a: Seq<Event>, b: Seq<Event>, len: int, buf: Seq<u8>) -> bool {
    match r {
        Ok(n) => {
            &&& n <= len
            &&& n <= a.len()
            &&& (n == 0 ==> len == 0 || a.len() == 0)
            &&& forall|i: int| 0 <= i < n ==> #[trigger] a[i] == Event::Byte(buf[i])
            &&& b == a.skip(n as int)
        }
        Err(e) => a.len() > 0 && a[0] == Event::Fault(e) && b == a.skip(1),
    }
}

/// bytes at the head of s, at most m
pub open spec fn byte_run(s: Seq<Event>, m: nat) -> nat decreases m {
    if m == 0 || s.len() == 0 || !(s[0] is Byte) { 0 } else { 1 + byte_run(s.skip(1), (m - 1) as nat) }
}
/// bytes at the head of s before the first sync byte
pub open spec fn noise_len(s: Seq<Event>) -> nat decreases s.len() {
    if s.len() == 0 || !(s[0] is Byte) || s[0] == Event::Byte(0x47u8) { 0 } else { 1 + noise_len(s.skip(1)) }
}

pub enum Found { Packet(Seq<u8>), Fault(std::io::Error), End }

/// what the reader has to find, and how many events it uses up for it
pub open spec fn found_next(s: Seq<Event>) -> (int, Found) {
    let p = noise_len(s) as int;
    let k = byte_run(s.skip(p), 188) as int;
    let e = s.skip(p + k);
    if k == 188 { (p + 188, Found::Packet(Seq::new(188, |i: int| byte_at(s, p + i)))) }
    else if e.len() == 0 { (p + k, Found::End) }
    else { (p + k + 1, Found::Fault(e[0]->Fault_0)) }
}

/// a is left of s, bytes before the first sync byte were used up
#[verifier::opaque]
pub open spec fn scanned_to(s: Seq<Event>, a: Seq<Event>) -> bool {
    &&& a.len() <= s.len()
    &&& a == s.skip(s.len() - a.len())
    &&& forall|i: int| 0 <= i < s.len() - a.len() ==> #[trigger] s[i] is Byte && s[i] != Event::Byte(0x47u8)
}

/// a is left of s, and the packet has pk so far
#[verifier::opaque]
pub open spec fn filled_to(s: Seq<Event>, a: Seq<Event>, pk: Seq<u8>) -> bool {
    let p = s.len() - a.len() - pk.len();
    &&& 0 <= p
    &&& a == s.skip(s.len() - a.len())
    &&& 0 < pk.len() <= 188 && pk[0] == 0x47
    &&& forall|i: int| 0 <= i < p ==> #[trigger] s[i] is Byte && s[i] != Event::Byte(0x47u8)
    &&& forall|i: int| 0 <= i < pk.len() ==> #[trigger] s[p + i] == Event::Byte(pk[i])
}

#[verifier::opaque]
pub open spec fn read_ends(s: Seq<Event>, b: Seq<Event>, x: Found) -> bool {
    &&& b.len() <= s.len()
    &&& found_next(s) == (s.len() - b.len(), x)
    &&& b == s.skip(s.len() - b.len())
}

proof fn lemma_noise(s: Seq<Event>, p: int)
    requires 0 <= p <= s.len(), forall|i: int| 0 <= i < p ==> #[trigger] s[i] is Byte && s[i] != Event::Byte(0x47u8),
    ensures noise_len(s) == p + noise_len(s.skip(p)),
    decreases p,
{
    if p > 0 {
        assert forall|i: int| 0 <= i < p - 1 implies #[trigger] s.skip(1)[i] is Byte && s.skip(1)[i] != Event::Byte(0x47u8) by { assert(s.skip(1)[i] == s[i + 1]); }
        lemma_noise(s.skip(1), p - 1);
        assert(s.skip(1).skip(p - 1) =~= s.skip(p));
    } else { assert(s.skip(0) =~= s); }
}
proof fn lemma_run(s: Seq<Event>, k: int, m: nat)
    requires 0 <= k <= s.len(), k <= m, forall|i: int| 0 <= i < k ==> #[trigger] s[i] is Byte,
    ensures byte_run(s, m) == k + byte_run(s.skip(k), (m - k) as nat),
    decreases k,
{
    if k > 0 {
        assert forall|i: int| 0 <= i < k - 1 implies #[trigger] s.skip(1)[i] is Byte by { assert(s.skip(1)[i] == s[i + 1]); }
        lemma_run(s.skip(1), k - 1, (m - 1) as nat);
        assert(s.skip(1).skip(k - 1) =~= s.skip(k));
    } else { assert(s.skip(0) =~= s); }
}

pub proof fn lemma_scan_start(s: Seq<Event>) ensures scanned_to(s, s) { reveal(scanned_to); assert(s.skip(0) =~= s); }

pub broadcast proof fn lemma_scan_step(s: Seq<Event>, a: Seq<Event>, r: Result<usize, std::io::Error>, b: Seq<Event>, len: int, buf: Seq<u8>)
    requires #[trigger] scanned_to(s, a), #[trigger] got_some(r, a, b, len, buf), len == 1, buf.len() == len,
    ensures
        match r {
            Ok(n) => if n == 0 { read_ends(s, b, Found::End) && b.len() == 0 } else { b.len() < a.len() && if buf[0] == 0x47 { filled_to(s, b, buf) } else { scanned_to(s, b) } },
            Err(e) => read_ends(s, b, Found::Fault(e)),
        },
{
    reveal(scanned_to); reveal(filled_to); reveal(read_ends);
    let p = s.len() - a.len();
    lemma_noise(s, p);
    match r {
        Ok(n) => {
            assert(b =~= s.skip(s.len() - b.len()));
            if n == 0 { assert(s.skip(p + 0) =~= a); }
            else { assert(s[p] == a[0]); assert(a[0] == Event::Byte(buf[0]));
                if buf[0] == 0x47 { assert forall|i: int| 0 <= i < buf.len() implies #[trigger] s[p + i] == Event::Byte(buf[i]) by { assert(i == 0); } } 
                }
        }
        Err(e) => { assert(b =~= s.skip(s.len() - b.len())); assert(s.skip(p + 0) =~= a); assert(noise_len(a) == 0); assert(byte_run(a, 188) == 0); }
    }
}

pub broadcast proof fn lemma_fill_step(s: Seq<Event>, a: Seq<Event>, pk: Seq<u8>, r: Result<usize, std::io::Error>, b: Seq<Event>, len: int, buf: Seq<u8>)
    requires #[trigger] filled_to(s, a, pk), #[trigger] got_some(r, a, b, len, buf), 0 < len == 188 - pk.len(), buf.len() == len,
    ensures
        match r {
            Ok(n) => if n == 0 { read_ends(s, b, Found::End) && b.len() == 0 } else { b.len() < a.len() && filled_to(s, b, pk + buf.take(n as int)) },
            Err(e) => read_ends(s, b, Found::Fault(e)),
        },
{
    reveal(filled_to); reveal(read_ends);
    let p = s.len() - a.len() - pk.len();
    lemma_noise(s, p);
    let t = s.skip(p);
    assert(t[0] == s[p + 0]);
    assert(noise_len(t) == 0);
    assert forall|i: int| 0 <= i < pk.len() implies #[trigger] t[i] is Byte by { assert(t[i] == s[p + i]); }
    lemma_run(t, pk.len() as int, 188);
    assert(t.skip(pk.len() as int) =~= a);
    match r {
        Ok(n) => {
            assert(b =~= s.skip(s.len() - b.len()));
            if n == 0 { assert(s.skip(p + pk.len()) =~= a); }
            else {
                let pk2 = pk + buf.take(n as int);
                assert forall|i: int| 0 <= i < pk2.len() implies #[trigger] s[p + i] == Event::Byte(pk2[i]) by {
                    if i >= pk.len() { assert(a[i - pk.len()] == Event::Byte(buf[i - pk.len()])); assert(s[p + i] == a[i - pk.len()]); }
                }
            }
        }
        Err(e) => { assert(b =~= s.skip(s.len() - b.len())); assert(s.skip(p + pk.len()) =~= a); assert(byte_run(a, (188 - pk.len()) as nat) == 0); }
    }
}

pub proof fn lemma_fill_end(s: Seq<Event>, a: Seq<Event>, pk: Seq<u8>)
    requires filled_to(s, a, pk), pk.len() == 188,
    ensures read_ends(s, a, Found::Packet(pk)),
{
    reveal(filled_to); reveal(read_ends);
    let p = s.len() - a.len() - pk.len();
    lemma_noise(s, p);
    let t = s.skip(p);
    assert(t[0] == s[p + 0]);
    assert forall|i: int| 0 <= i < pk.len() implies #[trigger] t[i] is Byte by { assert(t[i] == s[p + i]); }
    lemma_run(t, 188, 188);
    assert forall|i: int| 0 <= i < 188 implies byte_at(s, p + i) == pk[i] by { assert(s[p + i] == Event::Byte(pk[i])); }
    assert(Seq::new(188, |i: int| byte_at(s, p + i)) =~= pk);
}

/// packets and faults that come out of the reader
pub open spec fn packets_of(s: Seq<Event>) -> Seq<Found> decreases s.len() {
    let (n, x) = found_next(s);
    if x is End || !(0 < n <= s.len()) { Seq::empty() } else { Seq::empty().push(x) + packets_of(s.skip(n)) }
}

pub open spec fn outcome_of(r: Result<usize, std::io::Error>, pk: Seq<u8>) -> Found {
    match r { Ok(n) => if n == 188 { Found::Packet(pk.take(188)) } else { Found::End }, Err(e) => Found::Fault(e) }
}

/// one step of a sequence of packets
pub open spec fn took_one(a: Seq<Found>, b: Seq<Found>, x: Found) -> bool {
    if x is End { a.len() == 0 && b.len() == 0 } else { a.len() > 0 && a[0] == x && b == a.skip(1) }
}

pub broadcast proof fn lemma_took(s: Seq<Event>, b: Seq<Event>, x: Found)
    requires #[trigger] read_ends(s, b, x), x is End ==> b.len() == 0,
    ensures took_one(packets_of(s), packets_of(b), x),
{
    reveal(read_ends);
    if !(x is End) { assert((Seq::empty().push(x) + packets_of(b)).skip(1) =~= packets_of(b)); }
}

pub open spec fn as_events(b: Seq<u8>) -> Seq<Event> { Seq::new(b.len(), |i: int| Event::Byte(b[i])) }

pub open spec fn one_events(x: Found) -> Seq<Event> {
    match x { Found::Packet(b) => as_events(b), Found::Fault(e) => Seq::empty().push(Event::Fault(e)), Found::End => Seq::empty() }
}

/// the bytes of the packets one after another
pub open spec fn spread_out(s: Seq<Found>) -> Seq<Event> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { one_events(s[0]) + spread_out(s.skip(1)) }
}

pub broadcast proof fn lemma_spread(a: Seq<Found>, b: Seq<Found>, r: Result<usize, std::io::Error>, pk: Seq<u8>)
    requires #[trigger] took_one(a, b, outcome_of(r, pk)), pk.len() >= 188, r matches Ok(n) ==> n == 0 || n == 188,
    ensures
        spread_out(a) == one_events(outcome_of(r, pk)) + spread_out(b),
        got_some(r, spread_out(a), spread_out(b), pk.len() as int, pk),
{
    let x = outcome_of(r, pk);
    assert(one_events(x) + spread_out(b) =~= spread_out(a));
    if x is End { assert(spread_out(a).skip(0) =~= spread_out(b)); } else { assert((one_events(x) + spread_out(b)).skip(one_events(x).len() as int) =~= spread_out(b)); }
}

/// what is left after some bytes of the buffered packet from i were handed out
pub broadcast proof fn lemma_given(src: Seq<u8>, i: int, r: Result<usize, std::io::Error>, b: Seq<Event>, len: int, buf: Seq<u8>, left: Seq<Found>)
    requires
        #[trigger] got_some(r, as_events(src.skip(i)), b, len, buf), src.len() == 188, 0 <= i < 188, len > 0,
    ensures
        r matches Ok(n) && {
            let rest = #[trigger] spread_out(left);
            &&& 0 < n <= 188 - i
            &&& got_some(r, as_events(src.skip(i)) + rest, if i + n == 188 { rest } else { as_events(src.skip(i + n)) + rest }, len, buf)
            &&& i == 0 ==> got_some(r, as_events(src.take(188)) + rest, if n == 188 { rest } else { as_events(src.skip(n as int)) + rest }, len, buf)
        },
{
    let rest = spread_out(left);
    let q = as_events(src.skip(i));
    let a = q + rest;
    assert(q.len() == 188 - i);
    match r {
        Ok(n) => {
            assert(a.skip(n as int) =~= if i + n == 188 { rest } else { as_events(src.skip(i + n)) + rest });
            assert forall|k: int| 0 <= k < n implies #[trigger] a[k] == Event::Byte(buf[k]) by { assert(a[k] == q[k]); }
            if i == 0 { assert(src.skip(0) =~= src.take(188)); }
        }
        Err(e) => { assert(q[0] is Byte); }
    }
}
/// the same when the bytes were copied from the buffered packet
pub proof fn lemma_copied(src: Seq<u8>, i: int, n: usize, len: int, buf: Seq<u8>, left: Seq<Found>)
    requires src.len() == 188, 0 <= i < 188, 0 < n <= 188 - i, n <= len, forall|k: int| 0 <= k < n ==> #[trigger] buf[k] == src[i + k],
    ensures ({
        let rest = spread_out(left);
        let r: Result<usize, std::io::Error> = Ok(n);
        &&& got_some(r, as_events(src.skip(i)) + rest, if i + n == 188 { rest } else { as_events(src.skip(i + n)) + rest }, len, buf)
        &&& i == 0 ==> got_some(r, as_events(src.take(188)) + rest, if n == 188 { rest } else { as_events(src.skip(n as int)) + rest }, len, buf)
    }),
{
    let q = as_events(src.skip(i));
    let r: Result<usize, std::io::Error> = Ok(n);
    assert forall|k: int| 0 <= k < n implies #[trigger] q[k] == Event::Byte(buf[k]) by { assert(buf[k] == src[i + k]); }
    lemma_given(src, i, r, q.skip(n as int), len, buf, left);
}

pub broadcast proof fn lemma_got_none(a: Seq<Event>, len: int, buf: Seq<u8>)
    requires len == 0 || a.len() == 0 && len >= 0
    ensures #[trigger] got_some(Ok(0), a, a, len, buf)
{ assert(a.skip(0) =~= a); }

// ---------------------------------------------------------------------------
// Any number of calls, one after another.

/// one call: what it returned, and the buffer it was given
pub struct Call { pub r: Result<usize, std::io::Error>, pub buf: Seq<u8> }

/// what one call handed out
pub open spec fn handed(c: Call) -> Seq<Event> {
    match c.r { Ok(n) => as_events(c.buf.take(n as int)), Err(e) => Seq::empty().push(Event::Fault(e)) }
}
pub open spec fn used_up(c: Call) -> int { match c.r { Ok(n) => n as int, Err(_) => 1 } }

/// every call gets what is left by the ones before
pub open spec fn calls_on(a: Seq<Event>, calls: Seq<Call>) -> bool decreases calls.len() {
    calls.len() == 0 || {
        &&& got_some(calls[0].r, a, a.skip(used_up(calls[0])), calls[0].buf.len() as int, calls[0].buf)
        &&& calls_on(a.skip(used_up(calls[0])), calls.skip(1))
    }
}
pub open spec fn left_by(a: Seq<Event>, calls: Seq<Call>) -> Seq<Event> decreases calls.len() {
    if calls.len() == 0 { a } else { left_by(a.skip(used_up(calls[0])), calls.skip(1)) }
}
pub open spec fn all_handed(calls: Seq<Call>) -> Seq<Event> decreases calls.len() {
    if calls.len() == 0 { Seq::empty() } else { handed(calls[0]) + all_handed(calls.skip(1)) }
}

/// what the calls handed out and what is left make up the stream: nothing lost, repeated or moved
pub proof fn lemma_calls(a: Seq<Event>, calls: Seq<Call>)
    requires calls_on(a, calls),
    ensures all_handed(calls) + left_by(a, calls) == a,
    decreases calls.len(),
{
    if calls.len() == 0 { assert(all_handed(calls) + left_by(a, calls) =~= a); }
    else {
        let c = calls[0];
        let m = a.skip(used_up(c));
        lemma_calls(m, calls.skip(1));
        match c.r {
            Ok(n) => { assert forall|i: int| 0 <= i < n implies handed(c)[i] == #[trigger] a[i] by { } }
            Err(e) => { }
        }
        assert(handed(c) + m =~= a);
        assert(all_handed(calls) + left_by(a, calls) =~= handed(c) + (all_handed(calls.skip(1)) + left_by(m, calls.skip(1))));
    }
}

/// the same for a reader of packets
pub open spec fn reads_on(a: Seq<Found>, xs: Seq<Found>) -> bool decreases xs.len() {
    xs.len() == 0 || (took_one(a, if xs[0] is End { a } else { a.skip(1) }, xs[0]) && reads_on(if xs[0] is End { a } else { a.skip(1) }, xs.skip(1)))
}
/// every read but the last delivered something: these are the packets and faults of the source in order; an end is
/// reported only when there are no more
pub proof fn lemma_reads(a: Seq<Found>, xs: Seq<Found>)
    requires reads_on(a, xs), forall|i: int| 0 <= i < xs.len() - 1 ==> !(#[trigger] xs[i] is End),
    ensures
        xs.len() > 0 && xs.last() is End ==> a == xs.drop_last(),
        xs.len() > 0 && !(xs.last() is End) ==> xs.len() <= a.len() && a.take(xs.len() as int) == xs,
    decreases xs.len(),
{
    if xs.len() > 1 {
        let t = xs.skip(1);
        assert forall|i: int| 0 <= i < t.len() - 1 implies !(#[trigger] t[i] is End) by { assert(t[i] == xs[i + 1]); }
        assert(!(xs[0] is End));
        lemma_reads(a.skip(1), t);
        assert(t.last() == xs.last());
        assert(a =~= Seq::empty().push(xs[0]) + a.skip(1));
        if xs.last() is End { assert(a =~= xs.drop_last()) by { assert(xs.drop_last() =~= Seq::empty().push(xs[0]) + t.drop_last()); } }
        else {
            assert forall|i: int| 0 <= i < xs.len() implies a[i] == xs[i] by { if i > 0 { assert(a[i] == a.skip(1)[i - 1]); assert(a.skip(1).take(t.len() as int)[i - 1] == t[i - 1]); } }
            assert(a.take(xs.len() as int) =~= xs);
        }
    } else if xs.len() == 1 {
        if xs[0] is End { assert(a =~= xs.drop_last()); } else { assert(a.take(1) =~= xs); }
    }
}

/// what a packet of the reader is made of: 188 bytes of the source in a row that begin with the first sync byte
pub proof fn lemma_packet_bytes(s: Seq<Event>)
    ensures ({
        let (n, x) = found_next(s);
        &&& 0 <= n <= s.len()
        &&& x matches Found::Packet(pk) ==> {
            &&& pk.len() == 188 && n >= 188 && pk[0] == 0x47
            &&& forall|i: int| 0 <= i < 188 ==> #[trigger] s[n - 188 + i] == Event::Byte(pk[i])
            &&& forall|i: int| 0 <= i < n - 188 ==> #[trigger] s[i] is Byte && s[i] != Event::Byte(0x47u8)
        }
        &&& x matches Found::Fault(e) ==> n > 0 && s[n - 1] == Event::Fault(e) && forall|i: int| 0 <= i < n - 1 ==> #[trigger] s[i] is Byte
        &&& x is End ==> n == s.len() && forall|i: int| 0 <= i < n ==> #[trigger] s[i] is Byte
    }),
{
    let p = noise_len(s) as int;
    lemma_noise_is(s);
    let t = s.skip(p);
    let k = byte_run(t, 188) as int;
    lemma_run_is(t, 188);
    assert forall|i: int| p <= i < p + k implies #[trigger] s[i] is Byte by { assert(s[i] == t[i - p]); }
    if k == 188 { assert(t[0] == s[p]); }
    else if s.skip(p + k).len() > 0 { assert(s.skip(p + k)[0] == t[k]); }
}
proof fn lemma_noise_is(s: Seq<Event>)
    ensures
        noise_len(s) <= s.len(),
        forall|i: int| 0 <= i < noise_len(s) ==> #[trigger] s[i] is Byte && s[i] != Event::Byte(0x47u8),
        noise_len(s) < s.len() ==> !(s[noise_len(s) as int] is Byte) || s[noise_len(s) as int] == Event::Byte(0x47u8),
    decreases s.len(),
{
    if s.len() == 0 || !(s[0] is Byte) || s[0] == Event::Byte(0x47u8) { }
    else {
        let t = s.skip(1);
        lemma_noise_is(t);
        assert forall|i: int| 0 <= i < noise_len(s) implies #[trigger] s[i] is Byte && s[i] != Event::Byte(0x47u8) by { if i > 0 { assert(s[i] == t[i - 1]); } }
        if noise_len(s) < s.len() { assert(s[noise_len(s) as int] == t[noise_len(t) as int]); }
    }
}
proof fn lemma_run_is(s: Seq<Event>, m: nat)
    ensures
        byte_run(s, m) <= s.len(), byte_run(s, m) <= m,
        forall|i: int| 0 <= i < byte_run(s, m) ==> #[trigger] s[i] is Byte,
        byte_run(s, m) < m && byte_run(s, m) < s.len() ==> !(s[byte_run(s, m) as int] is Byte),
    decreases m,
{
    if m == 0 || s.len() == 0 || !(s[0] is Byte) { }
    else {
        let t = s.skip(1);
        lemma_run_is(t, (m - 1) as nat);
        assert forall|i: int| 0 <= i < byte_run(s, m) implies #[trigger] s[i] is Byte by { if i > 0 { assert(s[i] == t[i - 1]); } }
        if byte_run(s, m) < m && byte_run(s, m) < s.len() { assert(s[byte_run(s, m) as int] == t[byte_run(t, (m - 1) as nat) as int]); }
    }
}

/// reading from a slice: its bytes, no faults
#[verifier::external_body]
pub broadcast proof fn axiom_slice_source(s: &[u8])
    ensures #[trigger] s.events() == as_events(s@),
{
}

}
