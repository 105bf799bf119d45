#!/usr/bin/env python3
"""Writes contracts/spec/n_lang.rs and falsify/src/langs.rs from the list of ISO 639-1 below.

The list was typed from the ISO 639-1 / 639-2 registers, not taken from the crate. With --compare it is checked against
the locale definitions of the C library, where these are installed.
Rows: two-letter code, terminological code, bibliographic code where it differs."""
import glob, os, re, sys

# languages the crate lists
LISTED = '''
ab abk|af afr|ak aka|sq sqi alb|am amh|ar ara|hy hye arm|as asm|ay aym|az aze|bm bam|ba bak|eu eus baq|be bel|bn ben|bs bos|bg bul|
my mya bur|ca cat|ny nya|zh zho chi|cv chv|co cos|hr hrv|cs ces cze|da dan|dv div|nl nld dut|dz dzo|en eng|et est|ee ewe|fj fij|
fi fin|fr fra fre|ff ful|gl glg|ka kat geo|de deu ger|el ell gre|gn grn|gu guj|ht hat|ha hau|he heb|hi hin|hu hun|is isl ice|ig ibo|
id ind|ga gle|gd gla|it ita|ja jpn|kl kal|kn kan|kr kau|ks kas|kk kaz|km khm|ki kik|rw kin|rn run|ky kir|kg kon|ko kor|ku kur|
lo lao|lv lav|li lim|ln lin|lt lit|lb ltz|lg lug|mk mkd mac|mg mlg|ms msa may|ml mal|mt mlt|mr mar|mh mah|mn mon|na nau|
nd nde|ne nep|no nor|nr nbl|oc oci|om orm|or ori|os oss|pa pan|fa fas per|pl pol|pt por|ps pus|qu que|ro ron rum|ru rus|
sm smo|sg sag|sa san|sc srd|sr srp|sn sna|sd snd|si sin|sk slk slo|sl slv|so som|st sot|es spa|su sun|sw swa|ss ssw|sv swe|ta tam|
te tel|tg tgk|th tha|ti tir|bo bod tib|tk tuk|tl tgl|tn tsn|to ton|tr tur|ts tso|tt tat|tw twi|ty tah|ug uig|uk ukr|ur urd|uz uzb|
ve ven|vi vie|wa wln|cy cym wel|wo wol|fy fry|xh xho|yi yid|yo yor|za zha|zu zul
'''
# the other languages of ISO 639-1
OTHERS = '''
aa aar|ae ave|an arg|av ava|bh bih|bi bis|br bre|ce che|ch cha|cr cre|cu chu|eo epo|fo fao|gv glv|ho hmo|hz her|ia ina|ie ile|
ii iii|ik ipk|io ido|iu iku|jv jav|kj kua|kv kom|kw cor|la lat|lu lub|mi mri mao|nb nob|ng ndo|nn nno|nv nav|oj oji|pi pli|rm roh|se sme|vo vol
'''

def rows(t):
    out = []
    for x in t.replace('\n', ' ').split('|'):
        w = x.split()
        out.append((w[0], w[1], w[2] if len(w) > 2 else w[1]))
    return out

def word(s):
    n = 0
    for c in s:
        n = n * 0x200000 + ord(c)
    return n + (0x1000_0000_0000_0000_0000_0000 if len(s) == 3 else 0)

HEAD = '''// Written by tools/genlang.py.
verus! {

// ---------------------------------------------------------------------------
// Languages. A word of two or three characters as a number; other strings are no words.

pub open spec fn word_of(s: Seq<char>) -> int {
    if s.len() == 2 { (s[0] as int) * 0x200000 + (s[1] as int) }
    else if s.len() == 3 { (s[0] as int) * 0x200000 * 0x200000 + (s[1] as int) * 0x200000 + (s[2] as int) + 0x1000_0000_0000_0000_0000_0000 }
    else { -1 }
}

/// different words have different numbers
pub proof fn lemma_words(a: Seq<char>, b: Seq<char>)
    requires word_of(a) == word_of(b), word_of(a) != -1,
    ensures a == b,
{
    assert forall|i: int| 0 <= i < a.len() implies 0 <= #[trigger] (a[i] as int) < 0x200000 by { }
    assert forall|i: int| 0 <= i < b.len() implies 0 <= #[trigger] (b[i] as int) < 0x200000 by { }
    if a.len() == 2 {
        assert(0x200000int * 0x200000 * 0x200000 <= 0x1000_0000_0000_0000_0000_0000) by (compute_only);
        assert(b.len() == 2);
        assert(a =~= b);
    } else {
        assert(b.len() == 3);
        assert(a =~= b);
    }
}

/// a word of lower case letters
pub open spec fn small(c: int) -> bool { 97 <= c <= 122 }
pub open spec fn is_two(w: int) -> bool { 0 < w < 0x1000_0000_0000_0000_0000_0000 && small(w / 0x200000) && small(w % 0x200000) }
pub open spec fn is_three(w: int) -> bool {
    let v = w - 0x1000_0000_0000_0000_0000_0000;
    v > 0 && small(v / 0x200000 / 0x200000) && small(v / 0x200000 % 0x200000) && small(v % 0x200000)
}

/// letters take one byte each
pub broadcast proof fn lemma_word_size(s: Seq<char>)
    ensures
        is_two(word_of(s)) ==> (#[trigger] vstd::utf8::encode_utf8(s)).len() == 2,
        is_three(word_of(s)) ==> vstd::utf8::encode_utf8(s).len() == 3,
{
    reveal_with_fuel(vstd::utf8::encode_utf8, 4);
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] (s[i] as int) < 0x200000 by { }
    if is_two(word_of(s)) {
        assert(s.len() == 2);
        assert(s[0] as int == word_of(s) / 0x200000 && s[1] as int == word_of(s) % 0x200000);
        let t = s.drop_first();
        assert(t.len() == 1 && t[0] == s[1] && t.drop_first().len() == 0);
    }
    if is_three(word_of(s)) {
        let v = word_of(s) - 0x1000_0000_0000_0000_0000_0000;
        assert(s.len() == 3);
        assert(s[0] as int == v / 0x200000 / 0x200000 && s[1] as int == v / 0x200000 % 0x200000 && s[2] as int == v % 0x200000);
        let t = s.drop_first();
        let u = t.drop_first();
        assert(t.len() == 2 && t[0] == s[1] && u.len() == 1 && u[0] == s[2] && u.drop_first().len() == 0);
    }
}

pub open spec fn has_row(t: Seq<(int, int, int)>, r: (int, int, int), n: nat) -> bool decreases n {
    n > 0 && (t[n - 1] == r || has_row(t, r, (n - 1) as nat))
}
pub proof fn lemma_has_row(t: Seq<(int, int, int)>, r: (int, int, int), n: nat)
    requires n <= t.len(),
    ensures has_row(t, r, n) <==> exists|i: int| 0 <= i < n && #[trigger] t[i] == r,
    decreases n,
{
    if n > 0 { lemma_has_row(t, r, (n - 1) as nat); }
}
/// rows i < n share no code with row k
pub open spec fn apart_from(t: Seq<(int, int, int)>, k: int, n: nat) -> bool decreases n {
    n == 0 || {
        let (x, y) = (t[k], t[n - 1]);
        x.0 != y.0 && x.1 != y.1 && x.1 != y.2 && x.2 != y.1 && x.2 != y.2 && apart_from(t, k, (n - 1) as nat)
    }
}
/// every row has a word of two letters and words of three letters that no row before has
pub open spec fn rows_good(t: Seq<(int, int, int)>, n: nat) -> bool decreases n {
    n == 0 || {
        is_two(t[n - 1].0) && is_three(t[n - 1].1) && is_three(t[n - 1].2) && apart_from(t, n - 1, (n - 1) as nat) && rows_good(t, (n - 1) as nat)
    }
}
proof fn lemma_apart(t: Seq<(int, int, int)>, k: int, n: nat)
    requires apart_from(t, k, n),
    ensures forall|i: int| 0 <= i < n ==> ({ let (x, y) = (t[k], #[trigger] t[i]); x.0 != y.0 && x.1 != y.1 && x.1 != y.2 && x.2 != y.1 && x.2 != y.2 }),
    decreases n,
{
    if n > 0 { lemma_apart(t, k, (n - 1) as nat); }
}
pub proof fn lemma_rows_good(t: Seq<(int, int, int)>, n: nat)
    requires rows_good(t, n), n <= t.len(),
    ensures
        forall|i: int| 0 <= i < n ==> is_two((#[trigger] t[i]).0) && is_three(t[i].1) && is_three(t[i].2),
        forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j ==> ({
            let (x, y) = (#[trigger] t[i], #[trigger] t[j]);
            x.0 != y.0 && x.1 != y.1 && x.1 != y.2 && x.2 != y.1 && x.2 != y.2
        }),
    decreases n,
{
    if n > 0 { lemma_rows_good(t, (n - 1) as nat); lemma_apart(t, n - 1, (n - 1) as nat); }
}

pub proof fn lemma_all_langs()
    ensures
        rows_good(iso_all(), iso_all().len()),
        iso_all() == iso_listed() + iso_others(),
        iso_all().len() == @ALL@,
        iso_listed().len() == @LISTED@,
{
    assert(rows_good(iso_all(), iso_all().len())) by (compute_only);
    assert(iso_all().len() == @ALL@) by (compute_only);
    assert(iso_listed().len() == @LISTED@) by (compute_only);
    reveal(iso_all);
}

#[verifier::opaque]
pub open spec fn iso_all() -> Seq<(int, int, int)> { iso_listed() + iso_others() }

'''

def main():
    a, b = rows(LISTED), rows(OTHERS)
    if '--compare' in sys.argv:
        ref = {}
        for f in glob.glob('/usr/share/i18n/locales/*'):
            t = open(f, errors='replace').read()
            g = lambda k: (re.findall(r'^%s\s+"([^"]*)"' % k, t, re.M) or [None])[0]
            if g('lang_ab') and g('lang_term'):
                ref.setdefault(g('lang_ab'), set()).add((g('lang_term'), g('lang_lib') or g('lang_term')))
        n = 0
        for r in a + b:
            if r[0] in ref:
                n += 1
                if (r[1], r[2]) not in ref[r[0]]:
                    print('differs', r, ref[r[0]])
        print('%d of %d rows found in the locales' % (n, len(a + b)))
        code = re.findall(r'\("([^"]*)", "([^"]*)", "([^"]*)", "[^"]*"\)', open('/repo/src/textcode/lang.rs').read())
        print('crate only', [r for r in code if r not in a], 'list only', [r for r in a if r not in code], 'both lists', [r for r in b if r[0] in [x[0] for x in a]])
        return
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    out = HEAD.replace('@ALL@', str(len(a + b))).replace('@LISTED@', str(len(a)))
    for name, t, doc in (('iso_listed', a, 'two letters, terminological, bibliographic'), ('iso_others', b, 'the other languages of ISO 639-1')):
        out += '/// %s\n#[verifier::opaque]\npub open spec fn %s() -> Seq<(int, int, int)> {\n    seq![\n' % (doc, name)
        for r in t:
            out += '        (%d, %d, %d), // %s %s %s\n' % (word(r[0]), word(r[1]), word(r[2]), r[0], r[1], r[2])
        out += '    ]\n}\n\n'
    out += '}\n'
    open(os.path.join(root, 'contracts', 'spec', 'n_lang.rs'), 'w').write(out)
    o = '//! Written by tools/genlang.py: two letters, terminological, bibliographic\n'
    for name, t in (('LISTED', a), ('OTHERS', b)):
        o += 'pub const %s: &[(&str, &str, &str)] = &[\n' % name
        for r in t:
            o += '    ("%s", "%s", "%s"),\n' % r
        o += '];\n'
    open(os.path.join(root, 'falsify', 'src', 'langs.rs'), 'w').write(o)

main()
