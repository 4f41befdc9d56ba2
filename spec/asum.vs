%% ghost
// ---- sums and differences of mantissas
/// rounding depends on the part above a cut below the rounding position, and on whether anything is below it
pub proof fn lemma_rnd_same(y1: nat, a1: nat, y2: nat, a2: nat, k: nat, rm: RoundingMode, pos: bool)
    requires k >= 1, y1 / pow2(a1) == y2 / pow2(a2), y1 % pow2(a1) == 0 <==> y2 % pow2(a2) == 0,
    ensures rnd(y1, a1 + k, rm, pos) == rnd(y2, a2 + k, rm, pos), y1 / pow2(a1 + k) == y2 / pow2(a2 + k), y1 % pow2(a1 + k) == 0 <==> y2 % pow2(a2 + k) == 0,
{
    lemma_cut2(y1, a1, k); lemma_cut2(y2, a2, k);
    lemma_pow2_adds(a1, k); lemma_pow2_adds(a2, k); lemma_pow2_pos(a1); lemma_pow2_pos(a2); lemma_pow2_unfold(k);
    let f = y1 / pow2(a1); let g = f % pow2(k); let u1 = y1 % pow2(a1); let u2 = y2 % pow2(a2);
    let h = pow2((k - 1) as nat); let (p1, p2) = (pow2(a1), pow2(a2));
    let r1 = g * p1 + u1; let r2 = g * p2 + u2; let (b1, b2) = (pow2(a1 + k), pow2(a2 + k));
    assert(b1 == 2 * h * p1) by(nonlinear_arith) requires b1 == p1 * pow2(k), pow2(k) == 2 * h;
    assert(b2 == 2 * h * p2) by(nonlinear_arith) requires b2 == p2 * pow2(k), pow2(k) == 2 * h;
    lemma_half(g, u1, p1, h); lemma_half(g, u2, p2, h);
    assert(2 * h * p1 == 2 * (h * p1)) by(nonlinear_arith); assert(2 * h * p2 == 2 * (h * p2)) by(nonlinear_arith);
}
pub proof fn lemma_half(g: nat, u: nat, p: nat, h: nat)
    requires u < p,
    ensures g * p + u > h * p <==> (g > h || g == h && u > 0), g * p + u == h * p <==> (g == h && u == 0), g * p + u == 0 <==> g == 0 && u == 0,
{
    if g > h { assert(g * p >= h * p + p) by(nonlinear_arith) requires g >= h + 1; }
    if g < h { assert(g * p + p <= h * p) by(nonlinear_arith) requires g + 1 <= h; }
    if g > 0 { assert(g * p > 0) by(nonlinear_arith) requires g > 0, p > 0; } else { assert(g * p == 0) by(nonlinear_arith) requires g == 0; }
}
pub proof fn lemma_blen_floor(y: nat, a: nat)
    requires y / pow2(a) > 0,
    ensures blen(y) == blen(y / pow2(a)) + a, y > 0,
{
    let f = y / pow2(a); let b = blen(f); let p = pow2(a);
    lemma_blen(f); lemma_pow2_pos(a); lemma_fundamental_div_mod(y as int, p as int); lemma_mod_bound(y as int, p as int);
    lemma_pow2_adds((b - 1) as nat, a); lemma_pow2_adds(b, a); lemma_pow2_pos((b - 1) as nat);
    let (h, t, u) = (pow2((b - 1) as nat), pow2(b), y % p);
    assert(y >= h * p && y < t * p && y > 0) by(nonlinear_arith) requires y == p * f + u, 0 <= u < p, h <= f, f + 1 <= t, h > 0;
    lemma_blen_is(y, b + a);
}
pub proof fn lemma_mres_same(y1: nat, a1: nat, w1: int, y2: nat, a2: nat, w2: int, pw: int, rm: RoundingMode, sg: Sign, sh: int, m: Mantissa)
    requires pw > 0, y1 / pow2(a1) == y2 / pow2(a2), y1 % pow2(a1) == 0 <==> y2 % pow2(a2) == 0, blen(y1 / pow2(a1)) > 64 * pw, y1 / pow2(a1) > 0, w1 - a1 == w2 - a2, mres(y1, w1, pw, rm, sg, sh, m),
    ensures mres(y2, w2, pw, rm, sg, sh, m), mdirty(y1, pw) <==> mdirty(y2, pw), y2 > 0,
{
    lemma_blen_floor(y1, a1); lemma_blen_floor(y2, a2);
    let k = (blen(y1 / pow2(a1)) - 64 * pw) as nat;
    lemma_rnd_same(y1, a1, y2, a2, k, rm, sg == Sign::Pos);
    let q = choose|q: nat| #[trigger] sel(y1, a1 + k, rm, sg, q) && (q < bp(pw as nat) && m.v() == q && sh == w1 - blen(y1) || q == bp(pw as nat) && 2 * m.v() == q && sh == w1 - blen(y1) - 1);
    assert(sel(y2, a2 + k, rm, sg, q));
}
/// one step of a carry chain
pub proof fn lemma_carry_step(m: Seq<u64>, m2: Seq<u64>, a: Seq<u64>, b: Seq<u64>, i: int, c: nat, c2: nat, sub: bool)
    requires 0 <= i < m.len(), m2.len() == m.len() == a.len() == b.len(), forall|j: int| 0 <= j < i ==> m2[j] == m[j],
        if sub { valr(m, 0, i) + valr(b, 0, i) == valr(a, 0, i) + c * bp(i as nat) && m2[i] + b[i] + c == a[i] + c2 * base() } else { valr(m, 0, i) + c * bp(i as nat) == valr(a, 0, i) + valr(b, 0, i) && m2[i] + c2 * base() == a[i] + b[i] + c },
    ensures if sub { valr(m2, 0, i + 1) + valr(b, 0, i + 1) == valr(a, 0, i + 1) + c2 * bp((i + 1) as nat) } else { valr(m2, 0, i + 1) + c2 * bp((i + 1) as nat) == valr(a, 0, i + 1) + valr(b, 0, i + 1) },
{
    lemma_valr_ext(m, 0, i, m2, 0); lemma_bp(i as nat);
    let p = bp(i as nat); let (x, y, z) = (m2[i] as nat, a[i] as nat, b[i] as nat); let bb = base() as nat;
    if sub { assert(x * p + z * p + c * p == y * p + c2 * (p * bb)) by(nonlinear_arith) requires x + z + c == y + c2 * bb; }
    else { assert(x * p + c2 * (p * bb) == y * p + z * p + c * p) by(nonlinear_arith) requires x + c2 * bb == y + z + c; }
}
/// the words the iterators over the operands give
pub open spec fn ext_words(s: Seq<u64>, l: int) -> Seq<u64> { Seq::new(l as nat, |j: int| if j < l - s.len() { 0u64 } else { s[j - (l - s.len())] }) }
pub open spec fn shr_words(s: Seq<u64>, d: int, l: int) -> Seq<u64> { Seq::new(l as nat, |j: int| rs_at(s, (d % 64) as usize, l - s.len() - d / 64, j)) }
pub proof fn lemma_ext_words(s: Seq<u64>, l: int)
    requires l >= s.len(),
    ensures val(ext_words(s, l)) == val(s) * bp((l - s.len()) as nat), ext_words(s, l).len() == l,
{ lemma_add_low(s, ext_words(s, l), l - s.len()); }
pub proof fn lemma_shr_words(s: Seq<u64>, d: int, l: int)
    requires d >= 0, 64 * (l - s.len()) >= d, s.len() > 0,
    ensures val(shr_words(s, d, l)) == val(s) * pow2((64 * (l - s.len()) - d) as nat), shr_words(s, d, l).len() == l,
{
    let b = shr_words(s, d, l); let bits = (d % 64) as usize; let e = l - s.len() - d / 64; let n = s.len() + e;
    let t = b.subrange(0, n);
    lemma_rs_value(s, bits, e, t);
    lemma_valr_ext(t, 0, n, b, 0);
    lemma_valr_split(b, 0, n, l);
    assert forall|j: int| n <= j < l implies b[j] == 0 by {
        if bits > 0 { lemma_shr2_val(0, 0, bits); let k = bits as u64; assert(0u64 >> k == 0) by(bit_vector) requires k < 64; }
        assert(wz(s, j - e) == 0 && wz(s, j - e + 1) == 0);
    }
    lemma_valr_zero(b, n, l);
    assert(bp(n as nat) * 0 == 0);
}
pub proof fn lemma_al_words(m1: Mantissa, m2: Mantissa, d: int, l: int)
    requires m1.normal(), m2.normal(), d >= 0, 64 * l >= wmax(m1, m2, d),
    ensures val(ext_words(m1.m.inner@, l)) == al1(m1, m2, d) * pow2((64 * l - wmax(m1, m2, d)) as nat),
        val(shr_words(m2.m.inner@, d, l)) == al2(m1, m2, d) * pow2((64 * l - wmax(m1, m2, d)) as nat),
{
    let w = wmax(m1, m2, d); let t = (64 * l - w) as nat;
    lemma_wf_normal(m1); lemma_wf_normal(m2);
    lemma_ext_words(m1.m.inner@, l); lemma_shr_words(m2.m.inner@, d, l);
    let (i, j) = ((w - 64 * m1.l()) as nat, (w - 64 * m2.l() - d) as nat);
    lemma_pow2_adds(i, t); lemma_pow2_adds(j, t);
    assert((i + t) as nat == 64 * ((l - m1.l()) as nat));
    lemma_mul3(m1.v(), pow2(i), pow2(t)); lemma_mul3(m2.v(), pow2(j), pow2(t));
}
pub proof fn lemma_mul3(a: nat, b: nat, c: nat)
    ensures (a * b) * c == a * (b * c), (a + b) * c == a * c + b * c, a >= b ==> (a - b) * c == a * c - b * c && (a - b) * c >= 0, a > b && c > 0 ==> a * c > b * c, a > 0 && c > 0 ==> a * c > 0,
{
    assert((a * b) * c == a * (b * c)) by(nonlinear_arith); assert((a + b) * c == a * c + b * c) by(nonlinear_arith);
    if a >= b { assert((a - b) * c == a * c - b * c) by(nonlinear_arith); assert((a - b) * c >= 0) by(nonlinear_arith) requires a >= b; }
    if a > b && c > 0 { assert(a * c > b * c) by(nonlinear_arith) requires a > b, c > 0; }
    if a > 0 && c > 0 { assert(a * c > 0) by(nonlinear_arith) requires a > 0, c > 0; }
}
/// a1 * 2^n minus something small has the digits of a1 * 2^63 .. minus 1
pub proof fn lemma_minus_small(k: nat, s: nat, b: nat, y: nat, d: nat)
    requires y + b == k * pow2(s), k > 0, 0 < b <= pow2(d), d + 2 == s,
    ensures y / pow2(d) == 4 * k - 1 || b == pow2(d), b < pow2(d) ==> y % pow2(d) != 0,
{
    lemma_pow2_unfold(s); lemma_pow2_unfold((s - 1) as nat); let p = pow2(d);
    if b < p {
        let q = (4 * k - 1) as nat; let r = (p - b) as nat;
        assert(pow2(s) == 4 * p);
        assert(y == q * p + r) by(nonlinear_arith) requires y + b == k * (4 * p), q == 4 * k - 1, r == p - b;
        lemma_divmod_is(y, p, q, r);
    }
}
/// the early exit of abs_sub: m2 is too small to be seen
pub proof fn lemma_sub_early(m1: Mantissa, m2: Mantissa, d: int, pw: int, mx: int, y1: nat)
    requires m1.normal(), m2.normal(), mx >= m1.l(), mx >= pw > 0, d >= 64 * mx + 2, y1 + 1 == m1.v() * bp((mx + 1 - m1.l()) as nat), mx < maxw(),
    ensures ({ let w = wmax(m1, m2, d); let x = (al1(m1, m2, d) - al2(m1, m2, d)) as nat; let a2 = (w - 64 * mx - 2) as nat;
        y1 > 0 && w >= 64 * mx + 2 && x / pow2(a2) == y1 / pow2(62) && x % pow2(a2) != 0 && y1 % pow2(62) != 0 && y1 / pow2(62) > 0 && blen(y1 / pow2(62)) > 64 * pw && al1(m1, m2, d) > al2(m1, m2, d) }),
{
    lemma_wf_normal(m1); lemma_wf_normal(m2); lemma_al(m1, m2, d);
    let w = wmax(m1, m2, d); let a2 = (w - 64 * mx - 2) as nat;
    let e = (mx - m1.l()) as nat; let k = m1.v() * bp(e);
    lemma_bl_shl(m1.v(), 64 * m1.l(), 64 * e);
    assert(isbl(k, (64 * mx) as nat));
    lemma_pow2_adds(64 * e, 64); lemma_mul3(m1.v(), pow2(64 * e), pow2(64));
    assert((64 * e + 64) as nat == 64 * ((mx + 1 - m1.l()) as nat));
    let p1 = pow2(62); lemma_pow2_unfold(62); lemma_pow2_64();
    assert(p1 > 1) by { lemma_pow2_pos(61); }
    lemma_minus_small(k, 64, 1, y1, 62);
    // x
    let s = (a2 + 2) as nat;
    lemma_pow2_adds(64 * e, s); lemma_mul3(m1.v(), pow2(64 * e), pow2(s));
    assert((64 * e + s) as nat == (w - 64 * m1.l()) as nat);
    assert(al1(m1, m2, d) == k * pow2(s));
    let b = al2(m1, m2, d);
    assert(b < pow2((w - d) as nat));
    if w - d < a2 { lemma_pow2_strictly_increases((w - d) as nat, a2); }
    lemma_pow2_pos((64 * mx - 1) as nat); lemma_pow2_pos(s);
    lemma_pow2_unfold(s); lemma_pow2_unfold((s - 1) as nat);
    assert(k * pow2(s) > b) by(nonlinear_arith) requires k >= 1, pow2(s) > b;
    lemma_minus_small(k, s, b, (al1(m1, m2, d) - b) as nat, a2);
    let f = (4 * k - 1) as nat;
    lemma_blen(f); lemma_pow2_unfold((64 * mx) as nat); lemma_pow2_unfold((64 * mx + 1) as nat);
    lemma_pow2_pos((64 * mx - 1) as nat);
    if blen(f) <= 64 * mx { if blen(f) < 64 * mx { lemma_pow2_strictly_increases(blen(f), (64 * mx) as nat); } assert(f < pow2((64 * mx) as nat)); }
}
/// floors of a number cut twice
pub proof fn lemma_top_words(s: Seq<u64>, t: Seq<u64>, n: int)
    requires 0 <= n <= s.len(), t.len() == n, forall|i: int| 0 <= i < n ==> t[i] == s[s.len() - n + i],
    ensures val(t) == val(s) / bp((s.len() - n) as nat),
{ lemma_drop_low(s, t, s.len() - n); }
/// the early exit of abs_add: m2 is too small to be seen; v: the top pw+1 words of m1 with the low bit set
pub proof fn lemma_add_early(m1: Mantissa, m2: Mantissa, d: int, pw: int, tp: nat, v: nat)
    requires m1.normal(), m2.normal(), pw > 0, d >= 64 * m1.l() + 2, d >= 64 * pw + 2, pw + 1 <= maxw(), v == tp || v == tp + 1, v % 2 == 1, v == tp + 1 ==> tp % 2 == 0,
        if pw + 1 >= m1.l() { tp == m1.v() * bp((pw + 1 - m1.l()) as nat) } else { tp == m1.v() / bp((m1.l() - pw - 1) as nat) },
    ensures ({ let w = wmax(m1, m2, d); let x = al1(m1, m2, d) + al2(m1, m2, d); let a2 = (w - 64 * pw - 2) as nat;
        v > 0 && w >= 64 * pw + 2 && isbl(v, (64 * pw + 64) as nat) && x / pow2(a2) == v / pow2(62) && x % pow2(a2) != 0 && v % pow2(62) != 0 && v / pow2(62) > 0 && blen(v / pow2(62)) > 64 * pw }),
{
    lemma_wf_normal(m1); lemma_wf_normal(m2); lemma_al(m1, m2, d); lemma_pow2_64();
    let w = wmax(m1, m2, d); let x = al1(m1, m2, d) + al2(m1, m2, d); let a2 = (w - 64 * pw - 2) as nat;
    let l1 = m1.l(); let v1 = m1.v(); let b = al2(m1, m2, d);
    let mx = if l1 > pw { l1 as int } else { pw }; let s = (w - 64 * mx) as nat; let e = (mx - l1) as nat; let k = v1 * bp(e);
    lemma_bl_shl(v1, (64 * l1) as nat, 64 * e);
    lemma_pow2_adds(64 * e, s); lemma_mul3(v1, pow2(64 * e), pow2(s));
    assert(al1(m1, m2, d) == k * pow2(s));
    if w - d < s { lemma_pow2_strictly_increases((w - d) as nat, s); }
    lemma_divmod_is(x, pow2(s), k, b);
    lemma_pow2_unfold(62); lemma_pow2_pos(61); lemma_bp(0);
    assert(isbl(tp, (64 * pw + 64) as nat) && tp / pow2(62) == x / pow2(a2) && x % pow2(a2) != 0) by {
        if l1 <= pw {
            let s2 = (s - 2) as nat; lemma_pow2_unfold(s); lemma_pow2_unfold((s - 1) as nat);
            let p = pow2(s2);
            if w - d < s2 { lemma_pow2_strictly_increases((w - d) as nat, s2); }
            assert(x == (4 * k) * p + b) by(nonlinear_arith) requires x == k * pow2(s) + b, pow2(s) == 4 * p;
            lemma_divmod_is(x, p, 4 * k, b);
            lemma_pow2_adds(64 * e, 64); lemma_mul3(v1, pow2(64 * e), pow2(64));
            assert((64 * e + 64) as nat == 64 * ((pw + 1 - l1) as nat));
            lemma_pow2_unfold(64); lemma_pow2_unfold(63);
            let q = pow2(62);
            assert(tp == (4 * k) * q) by(nonlinear_arith) requires tp == k * pow2(64), pow2(64) == 4 * q;
            lemma_divmod_is(tp, q, 4 * k, 0);
            lemma_bl_shl(k, (64 * mx) as nat, 64);
        } else {
            let j = (l1 - pw - 1) as nat; let c = (64 * j + 62) as nat;
            assert(e == 0 && k == v1 * 1 && mx == l1);
            assert(tp == v1 / bp(j)) by { if j == 0 { assert(tp == v1 * 1); lemma_divmod_is(v1, 1, v1, 0); } }
            lemma_cut2(v1, 64 * j, 62); lemma_cut2(x, s, c);
            assert(a2 == s + c);
            let (g, p) = (k % pow2(c), pow2(s));
            assert(g * p + b > 0) by(nonlinear_arith) requires b > 0, g >= 0, p > 0;
            lemma_floor_bl(v1, (64 * l1) as nat, 64 * j);
        }
    }
    let q = pow2(62);
    lemma_floor_bl(tp, (64 * pw + 64) as nat, 62);
    lemma_blen_is(tp / q, (64 * pw + 2) as nat);
    lemma_pow2_pos((64 * pw + 1) as nat);
    // the sticky bit
    lemma_or_low(tp, v, 62);
    lemma_or_bl(tp, v, (64 * pw + 64) as nat);
}
pub proof fn lemma_floor_bl(v: nat, n: nat, k: nat)
    requires isbl(v, n), k < n,
    ensures isbl(v / pow2(k), (n - k) as nat),
{
    let p = pow2(k); lemma_pow2_pos(k); lemma_pow2_adds((n - k) as nat, k); lemma_pow2_adds((n - k - 1) as nat, k); 
    lemma_fundamental_div_mod(v as int, p as int); lemma_mod_bound(v as int, p as int);
    let (f, u, hi, lo) = (v / p, v % p, pow2((n - k) as nat), pow2((n - k - 1) as nat));
    assert(f < hi) by(nonlinear_arith) requires v == p * f + u, v < hi * p, u >= 0, p > 0;
    assert(f >= lo) by(nonlinear_arith) requires v == p * f + u, v >= lo * p, u < p, p > 0;
}
pub proof fn lemma_or_low(t: nat, v: nat, k: nat)
    requires v == t || v == t + 1, v % 2 == 1, v == t + 1 ==> t % 2 == 0, k > 0,
    ensures v / pow2(k) == t / pow2(k), v % pow2(k) != 0,
{
    let p = pow2(k); lemma_pow2_pos(k); lemma_pow2_unfold(k); let h = pow2((k - 1) as nat);
    lemma_fundamental_div_mod(t as int, p as int); lemma_mod_bound(t as int, p as int);
    let (f, u) = (t / p, t % p);
    assert(p * f == 2 * (h * f)) by(nonlinear_arith) requires p == 2 * h;
    lemma_mul_is_commutative(p as int, f as int);
    if v == t { lemma_divmod_is(v, p, f, u); assert(u % 2 == 1); } else { assert(u % 2 == 0); assert(u + 1 < p); lemma_divmod_is(v, p, f, u + 1); }
}
pub proof fn lemma_or_bl(t: nat, v: nat, n: nat)
    requires isbl(t, n), v == t || v == t + 1, v == t + 1 ==> t % 2 == 0, n > 0,
    ensures isbl(v, n), v > 0,
{ lemma_pow2_unfold(n); lemma_pow2_pos((n - 1) as nat); }
pub proof fn lemma_cut_dirty(x: nat, a: nat, pw: int)
    requires x % pow2(a) != 0, blen(x / pow2(a)) > 64 * pw, x / pow2(a) > 0, pw > 0,
    ensures mdirty(x, pw),
{
    lemma_blen_floor(x, a); let k = (blen(x / pow2(a)) - 64 * pw) as nat; lemma_cut2(x, a, k); lemma_pow2_pos(a);
    let (g, p, u) = ((x / pow2(a)) % pow2(k), pow2(a), x % pow2(a));
    lemma_pow2_pos(k); lemma_mod_bound((x / pow2(a)) as int, pow2(k) as int); lemma_mod_bound(x as int, p as int);
    assert(u > 0 && g >= 0);
    assert(g * p + u > 0) by(nonlinear_arith) requires u > 0, g >= 0, p > 0;
}
pub proof fn lemma_add0_words(m1: Mantissa, m2: Mantissa, l: int)
    requires m1.normal(), m2.normal(), 64 * l >= wmax(m1, m2, 0) + 64,
    ensures val(shr_words(m1.m.inner@, 1, l)) == al1(m1, m2, 0) * pow2((64 * l - wmax(m1, m2, 0) - 1) as nat),
        val(shr_words(m2.m.inner@, 1, l)) == al2(m1, m2, 0) * pow2((64 * l - wmax(m1, m2, 0) - 1) as nat),
{
    let w = wmax(m1, m2, 0); let t = (64 * l - w - 1) as nat;
    lemma_wf_normal(m1); lemma_wf_normal(m2);
    lemma_shr_words(m1.m.inner@, 1, l); lemma_shr_words(m2.m.inner@, 1, l);
    let (i, j) = ((w - 64 * m1.l()) as nat, (w - 64 * m2.l()) as nat);
    lemma_pow2_adds(i, t); lemma_pow2_adds(j, t);
    lemma_mul3(m1.v(), pow2(i), pow2(t)); lemma_mul3(m2.v(), pow2(j), pow2(t));
}
/// the sum of numbers with the same exponent
pub proof fn lemma_add0(m1: Mantissa, m2: Mantissa, l: int, v: nat, c: nat)
    requires m1.normal(), m2.normal(), 64 * l >= wmax(m1, m2, 0) + 64, v < bp(l as nat), c <= 1,
        ({ let t = (64 * l - wmax(m1, m2, 0) - 1) as nat; v + c * bp(l as nat) == al1(m1, m2, 0) * pow2(t) + al2(m1, m2, 0) * pow2(t) }),
    ensures ({ let x = al1(m1, m2, 0) + al2(m1, m2, 0); let t = (64 * l - wmax(m1, m2, 0) - 1) as nat; c == 0 && x > 0 && v == x * pow2(t) && isbl(v, (64 * l) as nat) }),
{
    lemma_al(m1, m2, 0); let w = wmax(m1, m2, 0) as nat; let t = (64 * l - w - 1) as nat;
    let (a, b) = (al1(m1, m2, 0), al2(m1, m2, 0)); let x = a + b;
    lemma_mul3(a, b, pow2(t));
    lemma_wf_normal(m1); lemma_pow2_unfold(w); lemma_pow2_unfold(w + 1);
    assert(isbl(x, (w + 1) as nat));
    lemma_bl_shl(x, w + 1, t);
    if c == 1 { assert(1 * bp(l as nat) == bp(l as nat)); }
    assert(0 * bp(l as nat) == 0);
}
/// the sum of numbers with different exponents
pub proof fn lemma_add1(m1: Mantissa, m2: Mantissa, d: int, l: int, v: nat, c: nat)
    requires m1.normal(), m2.normal(), 64 * l >= wmax(m1, m2, d) + 64, v < bp(l as nat), c <= 1, d > 0,
        ({ let t = (64 * l - wmax(m1, m2, d)) as nat; v + c * bp(l as nat) == al1(m1, m2, d) * pow2(t) + al2(m1, m2, d) * pow2(t) }),
    ensures ({ let x = al1(m1, m2, d) + al2(m1, m2, d); let t = (64 * l - wmax(m1, m2, d)) as nat; let r = if c == 0 { v } else { v / 2 + pow2((64 * l - 1) as nat) };
        x > 0 && r == x * pow2((t - c) as nat) && isbl(r, (64 * l) as nat) && (c == 1 ==> v / 2 < pow2((64 * l - 1) as nat)) }),
{
    lemma_al(m1, m2, d); let w = wmax(m1, m2, d) as nat; let t = (64 * l - w) as nat;
    let (a, b) = (al1(m1, m2, d), al2(m1, m2, d)); let x = a + b;
    lemma_mul3(a, b, pow2(t));
    lemma_wf_normal(m1); lemma_pow2_unfold((64 * l) as nat); lemma_pow2_unfold(t);
    assert(0 * bp(l as nat) == 0); assert(1 * bp(l as nat) == bp(l as nat));
    lemma_bl_shl(a, w, t); lemma_mul3(b, pow2(t), 1);
    if c == 1 {
        let h = pow2((t - 1) as nat);
        assert(x * pow2(t) == 2 * (x * h)) by(nonlinear_arith) requires pow2(t) == 2 * h;
    }
}
pub proof fn lemma_set_top(s: Seq<u64>, t: Seq<u64>)
    requires s.len() > 0, t.len() == s.len(), forall|i: int| 0 <= i < s.len() - 1 ==> t[i] == s[i], t[s.len() - 1] == s[s.len() - 1] | 0x8000_0000_0000_0000, val(s) < pow2((64 * s.len() - 1) as nat),
    ensures val(t) == val(s) + pow2((64 * s.len() - 1) as nat),
{
    let n = (s.len() - 1) as nat; lemma_valr_ext(s, 0, n as int, t, 0); let (a, b) = (s[n as int], t[n as int]);
    lemma_pow2_adds(64 * n, 63); lemma_pow2_64(); let p = bp(n); let h = pow2(63);
    assert(h == 0x8000_0000_0000_0000);
    assert(a < h) by(nonlinear_arith) requires a as nat * p < h * p, p > 0;
    assert(b == add(a, 0x8000_0000_0000_0000)) by(bit_vector) requires b == a | 0x8000_0000_0000_0000, a < 0x8000_0000_0000_0000;
    assert((a + h) * p == a * p + h * p) by(nonlinear_arith);
}
/// the last part of sums: digits y * 2^k of g0 rounded to pw words
pub proof fn lemma_tail(y: nat, w1: int, sh: int, k: nat, g0: Seq<u64>, pw: int, full: bool, rm: RoundingMode, sg: Sign, gr: bool, g1: Seq<u64>, m: Mantissa, ib: bool, ia: bool)
    requires y > 0, val(g0) == y * pow2(k), isbl(val(g0), 64 * g0.len()), k < 64 * g0.len(), m.n == 64 * m.l(), 0 < g0.len() <= maxw(), sh == w1 - (64 * g0.len() - k) - (if gr { 1int } else { 0int }),
        full ==> !gr && ia == ib && m.l() <= g0.len() && ({ let j = g0.len() - m.l(); m.m.inner@ =~= g0.subrange(j, g0.len() as int) && (forall|i: int| 0 <= i < j ==> g0[i] == 0) }),
        !full && g0.len() < pw ==> !gr && ia == ib && m.l() == pw <= maxw() && (forall|i: int| 0 <= i < pw - g0.len() ==> m.m.inner@[i] == 0) && (forall|i: int| pw - g0.len() <= i < pw ==> m.m.inner@[i] == g0[i - (pw - g0.len())]),
        !full && g0.len() == pw ==> !gr && ia == ib && m.m.inner@ == g0,
        !full && g0.len() > pw ==> 0 < pw && g1.len() == g0.len() && m.m.inner@ =~= g1.subrange(g0.len() - pw, g0.len() as int) && ({ let n = (64 * (g0.len() - pw)) as nat; let v = val(g0); let r = rnd(v, n, rm, sg == Sign::Pos);
            ia == (ib || v % pow2(n) != 0) && if rm == RoundingMode::None { !gr && g1 == g0 } else if gr { r * pow2(n) == bp(g0.len()) && isq(val(g1), pow2((64 * g0.len() - 1 - n) as nat), n, true) } else { isq(val(g1), r, n, true) } }),
    ensures m.normal(), full ==> fres(y, w1, sh, m), !full ==> mres(y, w1, pw, rm, sg, sh, m) && ia == (ib || mdirty(y, pw)),
{
    let g = m.m.inner@; let l = g0.len() as int;
    if full { lemma_mfull(y, w1, sh, k, g0, g); assert(fres(y, w1, sh, m)); }
    else if l < pw { lemma_add_low(g0, g, pw - l); lemma_mext(y, w1, sh, k, g0, (pw - l) as nat, g); assert(mres(y, w1, pw, rm, sg, sh, m)); }
    else if l == pw { lemma_mext(y, w1, sh, k, g0, 0, g); assert(mres(y, w1, pw, rm, sg, sh, m)); }
    else { lemma_drop_low(g1, g, l - pw); lemma_mround(y, w1, k, g0, pw as nat, rm, sg, val(g1), gr, g); assert(m.normal()); }
}
/// what is known before rounding: the digits y * 2^k stand for the exact x, or have the same leading part (early)
#[verifier::opaque]
pub open spec fn sumst(v: nat, l: nat, y: nat, k: nat, early: bool, x: nat, w: int, w1: int, ea: nat, pw: int) -> bool {
    &&& v == y * pow2(k) && isbl(v, 64 * l) && y > 0 && k < 64 * l && 0 < l <= maxw() && (!early ==> y == x && w1 == w)
    &&& early ==> pw > 0 && y / pow2(62) == x / pow2(ea) && y % pow2(62) != 0 && x % pow2(ea) != 0 && blen(y / pow2(62)) > 64 * pw && y / pow2(62) > 0 && w1 - 62 == w - ea
}
#[verifier::opaque]
pub open spec fn tailst(g0: Seq<u64>, pw: int, full: bool, rm: RoundingMode, pos: bool, gr: bool, g: Seq<u64>, ib: bool, ia: bool) -> bool {
    &&& full ==> !gr && ia == ib && g.len() <= g0.len() && ({ let j = g0.len() - g.len(); g =~= g0.subrange(j, g0.len() as int) && (forall|i: int| 0 <= i < j ==> g0[i] == 0) })
    &&& !full && g0.len() < pw ==> !gr && ia == ib && g.len() == pw <= maxw() && (forall|i: int| 0 <= i < pw - g0.len() ==> g[i] == 0) && (forall|i: int| pw - g0.len() <= i < pw ==> g[i] == g0[i - (pw - g0.len())])
    &&& !full && g0.len() == pw ==> !gr && ia == ib && g == g0
    &&& !full && g0.len() > pw ==> exists|g1: Seq<u64>| #[trigger] roundst(g0, g1, pw, rm, pos, gr, ib, ia) && g =~= g1.subrange(g0.len() - pw, g0.len() as int)
}
pub open spec fn roundst(g0: Seq<u64>, g1: Seq<u64>, pw: int, rm: RoundingMode, pos: bool, gr: bool, ib: bool, ia: bool) -> bool {
    let n = (64 * (g0.len() - pw)) as nat; let v = val(g0); let r = rnd(v, n, rm, pos);
    0 < pw && g1.len() == g0.len() && ia == (ib || v % pow2(n) != 0) && if rm == RoundingMode::None { !gr && g1 == g0 } else if gr { r * pow2(n) == bp(g0.len()) && isq(val(g1), pow2((64 * g0.len() - 1 - n) as nat), n, true) } else { isq(val(g1), r, n, true) }
}
pub proof fn lemma_sum_end(y: nat, k: nat, early: bool, x: nat, w: int, w1: int, ea: nat, g0: Seq<u64>, p: usize, full: bool, rm: RoundingMode, pos: bool, gr: bool, m: Mantissa, i0: bool, ib: bool, ia: bool, shift: isize)
    requires sumst(val(g0), g0.len(), y, k, early, x, w, w1, ea, words_of(p)), tailst(g0, words_of(p), full, rm, pos, gr, m.m.inner@, ib, ia), m.n == 64 * m.l(),
        shift == w1 - (64 * g0.len() - k) - (if gr { 1int } else { 0int }), ib == (i0 || early), full ==> !early,
    ensures sumres(x, w, p, rm, pos, full, i0, ia, (shift, m)),
{
    reveal(sumst); reveal(tailst); reveal(sumres);
    let sg = if pos { Sign::Pos } else { Sign::Neg }; let pw = words_of(p);
    let g1 = if !full && g0.len() > pw { choose|g1: Seq<u64>| #[trigger] roundst(g0, g1, pw, rm, pos, gr, ib, ia) && m.m.inner@ =~= g1.subrange(g0.len() - pw, g0.len() as int) } else { g0 };
    lemma_tail(y, w1, shift as int, k, g0, pw, full, rm, sg, gr, g1, m, ib, ia);
    if early { lemma_mres_same(y, 62, w1, x, ea, w, pw, rm, sg, shift as int, m); lemma_cut_dirty(x, ea, pw); }
}
pub proof fn lemma_sumst(v: nat, l: nat, y: nat, k: nat, x: nat, w: int, w1: int, ea: nat, pw: int)
    requires v == y * pow2(k), isbl(v, 64 * l), 0 < l <= maxw(), y == x, w1 == w,
    ensures sumst(v, l, y, k, false, x, w, w1, ea, pw),
{ reveal(sumst); lemma_bl_unscale2(y, k, 64 * l); }
/// sumst before the digits are moved to the top
#[verifier::opaque]
pub open spec fn sumst0(v: nat, y: nat, t: nat, early: bool, x: nat, w: int, w1: int, ea: nat, pw: int) -> bool {
    &&& v == y * pow2(t) && y > 0 && (!early ==> y == x && w1 == w)
    &&& early ==> pw > 0 && y / pow2(62) == x / pow2(ea) && y % pow2(62) != 0 && x % pow2(ea) != 0 && blen(y / pow2(62)) > 64 * pw && y / pow2(62) > 0 && w1 - 62 == w - ea
}
pub proof fn lemma_sumst0_pos(v: nat, y: nat, t: nat, early: bool, x: nat, w: int, w1: int, ea: nat, pw: int)
    requires sumst0(v, y, t, early, x, w, w1, ea, pw),
    ensures v > 0,
{ reveal(sumst0); lemma_pow2_pos(t); lemma_mul3(y, 1, pow2(t)); }
pub proof fn lemma_sumst0(v: nat, l: nat, v2: nat, y: nat, t: nat, s: nat, early: bool, x: nat, w: int, w1: int, ea: nat, pw: int)
    requires sumst0(v, y, t, early, x, w, w1, ea, pw), v2 == v * pow2(s), isbl(v2, 64 * l), 0 < l <= maxw(),
    ensures sumst(v2, l, y, t + s, early, x, w, w1, ea, pw),
{ reveal(sumst0); reveal(sumst); lemma_pow2_adds(t, s); lemma_mul3(y, pow2(t), pow2(s)); lemma_bl_unscale2(y, t + s, 64 * l); }
pub proof fn lemma_wmax_le(m1: Mantissa, m2: Mantissa, d: int, l: int)
    requires 64 * l >= 64 * m1.l(), 64 * l >= 64 * m2.l() + d, l >= 0, 64 * l < usize::MAX - 64,
    ensures 64 * l >= wmax(m1, m2, d), words_of((l * 64) as usize) == l, 
{}
pub proof fn lemma_tailst_eq(g0: Seq<u64>, pw: int, rm: RoundingMode, pos: bool, ib: bool)
    ensures g0.len() == pw ==> tailst(g0, pw, false, rm, pos, false, g0, ib, ib),
{ reveal(tailst); }
pub proof fn lemma_tailst_full(g0: Seq<u64>, pw: int, rm: RoundingMode, pos: bool, g: Seq<u64>, ib: bool)
    requires g.len() <= g0.len(), ({ let j = g0.len() - g.len(); g =~= g0.subrange(j, g0.len() as int) && (forall|i: int| 0 <= i < j ==> g0[i] == 0) }),
    ensures tailst(g0, pw, true, rm, pos, false, g, ib, ib),
{ reveal(tailst); }
pub proof fn lemma_tailst_ext(g0: Seq<u64>, pw: int, rm: RoundingMode, pos: bool, g: Seq<u64>, ib: bool)
    requires g0.len() < pw, g.len() == pw <= maxw(), forall|i: int| 0 <= i < pw - g0.len() ==> g[i] == 0, forall|i: int| pw - g0.len() <= i < pw ==> g[i] == g0[i - (pw - g0.len())],
    ensures tailst(g0, pw, false, rm, pos, false, g, ib, ib),
{ reveal(tailst); }
pub proof fn lemma_tailst_rnd(g0: Seq<u64>, pw: int, rm: RoundingMode, pos: bool, gr: bool, g1: Seq<u64>, g: Seq<u64>, ib: bool, ia: bool)
    requires roundst(g0, g1, pw, rm, pos, gr, ib, ia), 0 < pw < g0.len(), g =~= g1.subrange(g0.len() - pw, g0.len() as int),
    ensures tailst(g0, pw, false, rm, pos, gr, g, ib, ia),
{ reveal(tailst); }
%% fn mantissa/mantissa.rs|impl Mantissa|abs_sub
@#[verifier::rlimit(400)]
pub fn abs_sub(
    &self,
    m2: &Self,
    p: usize,
    m2_shift: usize,
    rm: RoundingMode,
    is_positive: bool,
    full_prec: bool,
    inexact: &mut bool,
) -> (ret: Result<(isize, Self), Error>)
@    requires self.normal(), m2.normal(), p < pmax() + 64, full_prec || 0 < p, m2_shift <= 0xa00_0000_0000_0000, al1(*self, *m2, m2_shift as int) > al2(*self, *m2, m2_shift as int),
@    ensures match ret { Err(e) => mem(e), Ok(r) => sumres((al1(*self, *m2, m2_shift as int) - al2(*self, *m2, m2_shift as int)) as nat, wmax(*self, *m2, m2_shift as int), p, rm, is_positive, full_prec, *old(inexact), *final(inexact), r) },
{
@hide(mres); hide(fres); hide(mdirty); hide(rnd); hide(al1); hide(al2); hide(rs_at); hide(wmax); hide(words_of);
@let ghost p0 = p; let ghost d = m2_shift as int; let ghost i0 = *inexact; let ghost sg = if is_positive { Sign::Pos } else { Sign::Neg };
@let ghost w = wmax(*self, *m2, d); let ghost x = (al1(*self, *m2, d) - al2(*self, *m2, d)) as nat; let ghost mut y: nat = 0; let ghost mut t: nat = 0; let ghost mut early = false; let ghost mut ea: nat = 0;
@proof { lemma_wf_normal(*self); lemma_wf_normal(*m2); lemma_al(*self, *m2, d); lemma_bp(0); }
    let p = Self::bit_len_to_word_len(p);
@assert(p == words_of(p0) && p <= 0x100_0000_0000_0000 && (full_prec || p > 0)) by { reveal(words_of); }
    let mut c = 0;
    let l2 = (m2_shift + WORD_BIT_SIZE - 2) / WORD_BIT_SIZE;
    let mut m3 = if l2 > p && l2 > self.len() && !full_prec {
        *inexact = true || *inexact;
        let m3l = self.len().max(p) + 1;
@assert(words_of((m3l * 64) as usize) == m3l) by { reveal(words_of); }
        let mut m3 = Mantissa::new(m3l * WORD_BIT_SIZE)?;
        let mut m1iter = ExtendedSlice::new(WIter::new(&self.m, 0), m3l - self.len(), &0);
        let mut ix_m3iter: usize = 0;
        let end_m3iter: usize = m3.m.len();
        c = 1;
@let ghost ga = ext_words(self.m.inner@, m3l as int); let ghost gb = Seq::new(m3l as nat, |j: int| if j == 0 { 1u64 } else { 0u64 });
@proof { lemma_ext_words(self.m.inner@, m3l as int); lemma_bp(0); }
        while ix_m3iter < end_m3iter
@            invariant ix_m3iter <= end_m3iter == m3l, m3.l() == m3l <= maxw(), m1iter.wf(), c <= 1, ga.len() == m3l, gb.len() == m3l,
@                forall|j: nat| ix_m3iter + j < m3l ==> (#[trigger] m1iter.at(j)) is Some && *(m1iter.at(j)->Some_0) == ga[ix_m3iter + j],
@                valr(m3.m.inner@, 0, ix_m3iter as int) + valr(gb, 0, ix_m3iter as int) == valr(ga, 0, ix_m3iter as int) + (if ix_m3iter == 0 { 0 } else { c as nat }) * bp(ix_m3iter as nat), ix_m3iter == 0 ==> c == 1, forall|j: int| 0 <= j < m3l ==> #[trigger] gb[j] == (if j == 0 { 1u64 } else { 0u64 }),
@            ensures ix_m3iter == m3l,
@            decreases m3l - ix_m3iter,
        {
@let ghost mb = m3.m.inner@; let ghost cb: nat = if ix_m3iter == 0 { 0 } else { c as nat };
            let k_1 = ix_m3iter;
            ix_m3iter += 1;
            let &a = match m1iter.next() {
                Some(x_) => x_,
                None => break,
            };
            if c > 0 {
                if a == 0 {
                    m3.m[k_1] = WORD_MAX;
                } else {
                    m3.m[k_1] = a - c;
                    c = 0;
                }
            } else {
                m3.m[k_1] = a;
            }
@proof { assert(a == ga[k_1 as int]); assert(m3.m.inner@[k_1 as int] + gb[k_1 as int] + cb == a + c as nat * base()); lemma_carry_step(mb, m3.m.inner@, ga, gb, k_1 as int, cb, c as nat, true); }
        }
@assert(ix_m3iter == m3l);
@proof {
@    let g = m3.m.inner@; let n = m3.l() as int;
@    lemma_valr_first(gb, 0, n); lemma_valr_zero(gb, 1, n); assert(valr(gb, 0, n) == 1); assert(valr(g, 0, n) + valr(gb, 0, n) == valr(ga, 0, n) + c as nat * bp(n as nat)); lemma_val_bound(g); lemma_pow2_pos((64 * self.l() - 1) as nat);
@    lemma_bp((n - self.l()) as nat); lemma_mul3(self.v(), 1, bp((n - self.l()) as nat));
@    if c == 1 { assert(val(g) >= bp(n as nat)) by { assert(1 * bp(n as nat) == bp(n as nat)); } }
@    assert(0 * bp(n as nat) == 0);
@    y = val(g); assert(y + 1 == val(ga));
@    lemma_sub_early(*self, *m2, d, p as int, n - 1, y);
@    early = true; ea = (w - 64 * (n - 1) - 2) as nat; t = 0;
@    lemma_pow2_64(); assert(y * 1 == y);
@    assert(sumst0(m3.v(), y, t, early, x, w, 64 * m3.l() - t, ea, p as int)) by { reveal(sumst0); }
@}
        m3
    } else {
        let l = self
            .len()
            .max((m2_shift + WORD_BIT_SIZE - 1) / WORD_BIT_SIZE + m2.len());
@proof { lemma_wmax_le(*self, *m2, d, l as int); }
        let mut m3 = Mantissa::new(l * WORD_BIT_SIZE)?;
        let mut m1iter = ExtendedSlice::new(WIter::new(&self.m, 0), l - self.len(), &0);
        let mut m2iter = RightShiftedSlice::new(&m2.m, m2_shift, 0, l - m2.len());
        let mut ix_m3iter: usize = 0;
        let end_m3iter: usize = m3.m.len();
@let ghost ga = ext_words(self.m.inner@, l as int); let ghost gb = shr_words(m2.m.inner@, d, l as int);
@proof { lemma_al_words(*self, *m2, d, l as int); }
        while ix_m3iter < end_m3iter
@            invariant ix_m3iter <= end_m3iter == l, m3.l() == l <= maxw(), m1iter.wf(), m2iter.wf(), c <= 1, ga.len() == l, gb.len() == l,
@                forall|j: nat| ix_m3iter + j < l ==> (#[trigger] m1iter.at(j)) is Some && *(m1iter.at(j)->Some_0) == ga[ix_m3iter + j],
@                forall|j: nat| ix_m3iter + j < l ==> (#[trigger] m2iter.at(j)) == Some(gb[ix_m3iter + j]),
@                valr(m3.m.inner@, 0, ix_m3iter as int) + valr(gb, 0, ix_m3iter as int) == valr(ga, 0, ix_m3iter as int) + c as nat * bp(ix_m3iter as nat),
@            ensures ix_m3iter == l,
@            decreases l - ix_m3iter,
        {
@let ghost mb = m3.m.inner@; let ghost cb = c as nat;
            let k_2 = ix_m3iter;
            ix_m3iter += 1;
            let a = match m1iter.next() {
                Some(x_) => x_,
                None => break,
            };
            let b = match m2iter.next() {
                Some(x_) => x_,
                None => break,
            };
            c = sub_borrow(*a, b, c, &mut m3.m[k_2]);
@proof { lemma_carry_step(mb, m3.m.inner@, ga, gb, k_2 as int, cb, c as nat, true); }
        }
@assert(ix_m3iter == l);
@proof {
@    let g = m3.m.inner@; let n = l as int; t = (64 * n - w) as nat;
@    assert(valr(g, 0, n) + valr(gb, 0, n) == valr(ga, 0, n) + c as nat * bp(n as nat));
@    lemma_val_bound(g); lemma_pow2_pos(t);
@    lemma_mul3(al1(*self, *m2, d), al2(*self, *m2, d), pow2(t)); lemma_mul3(x, al2(*self, *m2, d), pow2(t));
@    assert(al1(*self, *m2, d) * pow2(t) == x * pow2(t) + al2(*self, *m2, d) * pow2(t));
@    if c == 1 { assert(1 * bp(n as nat) == bp(n as nat)); }
@    assert(0 * bp(n as nat) == 0);
@    y = x;
@    assert(sumst0(m3.v(), y, t, early, x, w, 64 * m3.l() - t, ea, p as int)) by { reveal(sumst0); lemma_mul3(x, 1, pow2(t)); }
@}
        m3
    };
@let ghost l = m3.l(); let ghost w1 = 64 * l - t;
@assert(sumst0(m3.v(), y, t, early, x, w, w1, ea, p as int));

@let ghost mv = m3.v();
@proof { lemma_sumst0_pos(mv, y, t, early, x, w, w1, ea, p as int); }
    let mut shift = Self::maximize(&mut m3.m) as isize;
@let ghost k = (t + shift) as nat; let ghost g0 = m3.m.inner@; let ghost pw = p as int;
@proof { lemma_sumst0(mv, m3.l(), val(g0), y, t, shift as nat, early, x, w, w1, ea, pw); }
@let ghost mut gr = false; let ghost ib = *inexact; let ghost pos = is_positive;
@proof { lemma_tailst_eq(g0, pw, rm, pos, ib); }
    if full_prec {
        m3.m.trunc_trailing_zeroes();
@proof { lemma_tailst_full(g0, pw, rm, pos, m3.m.inner@, ib); }
    } else if m3.len() < p {
        let n = m3.len();
        m3.m.try_extend(p * WORD_BIT_SIZE)?;
        m3.m[..p - n].fill(0);
@proof { lemma_tailst_ext(g0, pw, rm, pos, m3.m.inner@, ib); }
    } else if m3.len() > p {
        if m3.round_mantissa(
            (m3.len() - p) * WORD_BIT_SIZE,
            rm,
            is_positive,
            &mut false,
            m3.max_bit_len(),
            inexact,
        ) {
@proof { gr = true; }
            shift -= 1;
        }
@let ghost g1 = m3.m.inner@;
        m3.m.trunc_to(p * WORD_BIT_SIZE);
@proof { lemma_tailst_rnd(g0, pw, rm, pos, gr, g1, m3.m.inner@, ib, *inexact); }
    }
    m3.n = m3.max_bit_len();
@proof { lemma_sum_end(y, k, early, x, w, w1, ea, g0, p0, full_prec, rm, pos, gr, m3, i0, ib, *inexact, shift); }
    Ok((shift, m3))
}
%% fn mantissa/mantissa.rs|impl Mantissa|abs_add
@#[verifier::rlimit(400)]
pub fn abs_add(
    &self,
    m2: &Self,
    p: usize,
    m2_shift: usize,
    rm: RoundingMode,
    is_positive: bool,
    full_prec: bool,
    inexact: &mut bool,
) -> (ret: Result<(isize, Self), Error>)
@    requires self.normal(), m2.normal(), p < pmax() + 64, full_prec || 0 < p, m2_shift <= 0xa00_0000_0000_0000, 
@    ensures match ret { Err(e) => mem(e), Ok(r) => sumres((al1(*self, *m2, m2_shift as int) + al2(*self, *m2, m2_shift as int)) as nat, wmax(*self, *m2, m2_shift as int), p, rm, is_positive, full_prec, *old(inexact), *final(inexact), r) },
{
@hide(mres); hide(fres); hide(mdirty); hide(rnd); hide(al1); hide(al2); hide(rs_at); hide(wmax); hide(words_of);
@let ghost p0 = p; let ghost d = m2_shift as int; let ghost i0 = *inexact; let ghost sg = if is_positive { Sign::Pos } else { Sign::Neg };
@let ghost w = wmax(*self, *m2, d); let ghost x = al1(*self, *m2, d) + al2(*self, *m2, d); let ghost mut y: nat = 0; let ghost mut k: nat = 0; let ghost mut w1 = 0int; let ghost mut early = false; let ghost mut ea: nat = 0;
@proof { lemma_wf_normal(*self); lemma_wf_normal(*m2); lemma_al(*self, *m2, d); lemma_bp(0); }
    let p = Self::bit_len_to_word_len(p);
@assert(p == words_of(p0) && p <= 0x100_0000_0000_0000 && (full_prec || p > 0)) by { reveal(words_of); }
    let mut c = 0;
    let (mut m3, c) = if m2_shift == 0 {
        let l = self.len().max(m2.len()) + 1;
@proof { lemma_wmax_le(*self, *m2, d, l - 1); lemma_wmax_le(*self, *m2, d, l as int); }
        let mut m3 = Mantissa::new(l * WORD_BIT_SIZE)?;
        let mut m1iter = RightShiftedSlice::new(&self.m, 1, 0, l - self.len());
        let mut m2iter = RightShiftedSlice::new(&m2.m, 1, 0, l - m2.len());
        let mut ix_m3iter: usize = 0;
        let end_m3iter: usize = m3.m.len();
@let ghost ga = shr_words(self.m.inner@, 1, l as int); let ghost gb = shr_words(m2.m.inner@, 1, l as int);
@proof { lemma_add0_words(*self, *m2, l as int); }
        while ix_m3iter < end_m3iter
@            invariant ix_m3iter <= end_m3iter == l, m3.l() == l <= maxw(), m1iter.wf(), m2iter.wf(), c <= 1, ga.len() == l, gb.len() == l,
@                forall|j: nat| ix_m3iter + j < l ==> (#[trigger] m1iter.at(j)) == Some(ga[ix_m3iter + j]),
@                forall|j: nat| ix_m3iter + j < l ==> (#[trigger] m2iter.at(j)) == Some(gb[ix_m3iter + j]),
@                valr(m3.m.inner@, 0, ix_m3iter as int) + c as nat * bp(ix_m3iter as nat) == valr(ga, 0, ix_m3iter as int) + valr(gb, 0, ix_m3iter as int),
@            ensures ix_m3iter == l,
@            decreases l - ix_m3iter,
        {
@let ghost mb = m3.m.inner@; let ghost cb = c as nat;
            let k_1 = ix_m3iter;
            ix_m3iter += 1;
            let a = match m1iter.next() {
                Some(x_) => x_,
                None => break,
            };
            let b = match m2iter.next() {
                Some(x_) => x_,
                None => break,
            };
            c = add_carry(a, b, c, &mut m3.m[k_1]);
@proof { lemma_carry_step(mb, m3.m.inner@, ga, gb, k_1 as int, cb, c as nat, false); }
        }
@assert(ix_m3iter == l);
@proof {
@    let g = m3.m.inner@; let n = l as int;
@    assert(valr(g, 0, n) + c as nat * bp(n as nat) == valr(ga, 0, n) + valr(gb, 0, n));
@    k = (64 * n - w - 1) as nat; y = x; lemma_val_bound(g); lemma_add0(*self, *m2, n, val(g), c as nat); w1 = w; lemma_sumst(val(g), l as nat, y, k, x, w, w1, 0, p as int); assert(w1 == 64 * l - k - 1);
@}
        c = 1;
        (m3, c)
    } else {
        let l2 = (m2_shift + WORD_BIT_SIZE - 2) / WORD_BIT_SIZE;
        if l2 > p && l2 > self.len() && !full_prec {
            *inexact = true || *inexact;
@assert(words_of(((p + 1) * 64) as usize) == p + 1) by { reveal(words_of); }
            let mut m3 = Mantissa::new((p + 1) * WORD_BIT_SIZE)?;
            if m3.len() >= self.m.len() {
                let l = m3.len() - self.len();
                m3.m[l..].copy_from_slice(&self.m);
            } else {
                let l = self.len() - m3.len();
                m3.m.copy_from_slice(&self.m[l..]);
            }
@let ghost g4 = m3.m.inner@;
@proof { if p + 1 >= self.l() { lemma_add_low(self.m.inner@, g4, p + 1 - self.l()); } else { lemma_drop_low(self.m.inner@, g4, self.l() - p - 1); } }
            m3.m[0] |= 1;
@proof { lemma_or1(g4, m3.m.inner@); y = m3.v(); k = 0; early = true; ea = (w - 64 * p - 2) as nat; lemma_add_early(*self, *m2, d, p as int, val(g4), y); lemma_pow2_64(); assert(y * 1 == y); w1 = 64 * m3.l() as int; assert(sumst(m3.v(), m3.l(), y, k, early, x, w, w1, ea, p as int)) by { reveal(sumst); } }
            (m3, 0)
        } else {
            let l = self
                .len()
                .max((m2_shift + WORD_BIT_SIZE - 1) / WORD_BIT_SIZE + m2.len())
                + 1;
@proof { lemma_wmax_le(*self, *m2, d, l - 1); lemma_wmax_le(*self, *m2, d, l as int); }
            let mut m3 = Mantissa::new(l * WORD_BIT_SIZE)?;
            let mut m1iter = ExtendedSlice::new(WIter::new(&self.m, 0), l - self.len(), &0);
            let mut m2iter = RightShiftedSlice::new(&m2.m, m2_shift, 0, l - m2.len());
            let mut ix_m3iter: usize = 0;
            let end_m3iter: usize = m3.m.len();
    @let ghost ga = ext_words(self.m.inner@, l as int); let ghost gb = shr_words(m2.m.inner@, d, l as int);
@proof { lemma_al_words(*self, *m2, d, l as int); }
            while ix_m3iter < end_m3iter
@            invariant ix_m3iter <= end_m3iter == l, m3.l() == l <= maxw(), m1iter.wf(), m2iter.wf(), c <= 1, ga.len() == l, gb.len() == l,
@                forall|j: nat| ix_m3iter + j < l ==> (#[trigger] m1iter.at(j)) is Some && *(m1iter.at(j)->Some_0) == ga[ix_m3iter + j],
@                forall|j: nat| ix_m3iter + j < l ==> (#[trigger] m2iter.at(j)) == Some(gb[ix_m3iter + j]),
@                valr(m3.m.inner@, 0, ix_m3iter as int) + c as nat * bp(ix_m3iter as nat) == valr(ga, 0, ix_m3iter as int) + valr(gb, 0, ix_m3iter as int),
@            ensures ix_m3iter == l,
@            decreases l - ix_m3iter,
            {
@let ghost mb = m3.m.inner@; let ghost cb = c as nat;
                let k_2 = ix_m3iter;
                ix_m3iter += 1;
                let a = match m1iter.next() {
                    Some(x_) => x_,
                    None => break,
                };
                let b = match m2iter.next() {
                    Some(x_) => x_,
                    None => break,
                };
                c = add_carry(*a, b, c, &mut m3.m[k_2]);
@proof { lemma_carry_step(mb, m3.m.inner@, ga, gb, k_2 as int, cb, c as nat, false); }
            }
@assert(ix_m3iter == l);
@let ghost g2 = m3.m.inner@;
@proof {
@    let n = l as int;
@    assert(valr(g2, 0, n) + c as nat * bp(n as nat) == valr(ga, 0, n) + valr(gb, 0, n));
@    k = (64 * n - w - c) as nat; y = x; lemma_val_bound(g2); lemma_pow2_64(); lemma_add1(*self, *m2, d, n, val(g2), c as nat);
@}
            if c > 0 {
                m3.shift_right(1);
                let l = m3.m.len();
@let ghost g3 = m3.m.inner@;
                m3.m[l - 1] |= WORD_SIGNIFICANT_BIT;
@proof { lemma_set_top(g3, m3.m.inner@); }
            }
@proof { w1 = w; lemma_sumst(m3.v(), m3.l(), y, k, x, w, w1, 0, p as int); assert(w1 == 64 * m3.l() - k - c); }
            (m3, c)
        }
    };
    let mut shift = -(c as isize);
@let ghost l = m3.l(); let ghost g0 = m3.m.inner@; let ghost pw = p as int;
@assert(sumst(m3.v(), l, y, k, early, x, w, w1, ea, pw));
@assert(w1 == 64 * l - k + shift);
@assert(full_prec ==> !early);
@assert(0 < l <= maxw()) by { reveal(sumst); }
@let ghost mut gr = false; let ghost ib = *inexact; let ghost pos = is_positive;
@proof { lemma_tailst_eq(g0, pw, rm, pos, ib); }
    if full_prec {
        m3.m.trunc_trailing_zeroes();
@proof { lemma_tailst_full(g0, pw, rm, pos, m3.m.inner@, ib); }
    } else if m3.len() < p {
        let n = m3.len();
        m3.m.try_extend(p * WORD_BIT_SIZE)?;
        m3.m[..p - n].fill(0);
@proof { lemma_tailst_ext(g0, pw, rm, pos, m3.m.inner@, ib); }
    } else if m3.len() > p {
        if m3.round_mantissa(
            (m3.len() - p) * WORD_BIT_SIZE,
            rm,
            is_positive,
            &mut false,
            m3.max_bit_len(),
            inexact,
        ) {
@proof { gr = true; }
            shift -= 1;
        }
@let ghost g1 = m3.m.inner@;
        m3.m.trunc_to(p * WORD_BIT_SIZE);
@proof { lemma_tailst_rnd(g0, pw, rm, pos, gr, g1, m3.m.inner@, ib, *inexact); }
    }
    m3.n = m3.max_bit_len();
@proof { lemma_sum_end(y, k, early, x, w, w1, ea, g0, p0, full_prec, rm, pos, gr, m3, i0, ib, *inexact, shift); }
    Ok((shift, m3))
}
