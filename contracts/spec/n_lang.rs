// Written by tools/genlang.py.
verus! {

// ---------------------------------------------------------------------------
// Languages. A word of two or three characters as a number; other strings are no words.

pub open spec fn word_of(s: Seq<char>) -> int {
    if s.len() == 2 { (s[0] as int) * 0x200000 + (s[1] as int) }
    else if s.len() == 3 { (s[0] as int) * 0x200000 * 0x200000 + (s[1] as int) * 0x200000 + (s[2] as int) + 0x1000_0000_0000_0000_0000_0000 }
    else { -1 }
}

/// different words have different numbers
pub proof fn lemma_words(a: Seq<char>, b: Seq<char>)
    requires word_of(a) == word_of(b), word_of(a) != -1,
    ensures a == b,
{
    assert forall|i: int| 0 <= i < a.len() implies 0 <= #[trigger] (a[i] as int) < 0x200000 by { }
    assert forall|i: int| 0 <= i < b.len() implies 0 <= #[trigger] (b[i] as int) < 0x200000 by { }
    if a.len() == 2 {
        assert(0x200000int * 0x200000 * 0x200000 <= 0x1000_0000_0000_0000_0000_0000) by (compute_only);
        assert(b.len() == 2);
        assert(a =~= b);
    } else {
        assert(b.len() == 3);
        assert(a =~= b);
    }
}

/// a word of lower case letters
pub open spec fn small(c: int) -> bool { 97 <= c <= 122 }
pub open spec fn is_two(w: int) -> bool { 0 < w < 0x1000_0000_0000_0000_0000_0000 && small(w / 0x200000) && small(w % 0x200000) }
pub open spec fn is_three(w: int) -> bool {
    let v = w - 0x1000_0000_0000_0000_0000_0000;
    v > 0 && small(v / 0x200000 / 0x200000) && small(v / 0x200000 % 0x200000) && small(v % 0x200000)
}

/// letters take one byte each
pub broadcast proof fn lemma_word_size(s: Seq<char>)
    ensures
        is_two(word_of(s)) ==> (#[trigger] vstd::utf8::encode_utf8(s)).len() == 2,
        is_three(word_of(s)) ==> vstd::utf8::encode_utf8(s).len() == 3,
{
    reveal_with_fuel(vstd::utf8::encode_utf8, 4);
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] (s[i] as int) < 0x200000 by { }
    if is_two(word_of(s)) {
        assert(s.len() == 2);
        assert(s[0] as int == word_of(s) / 0x200000 && s[1] as int == word_of(s) % 0x200000);
        let t = s.drop_first();
        assert(t.len() == 1 && t[0] == s[1] && t.drop_first().len() == 0);
    }
    if is_three(word_of(s)) {
        let v = word_of(s) - 0x1000_0000_0000_0000_0000_0000;
        assert(s.len() == 3);
        assert(s[0] as int == v / 0x200000 / 0x200000 && s[1] as int == v / 0x200000 % 0x200000 && s[2] as int == v % 0x200000);
        let t = s.drop_first();
        let u = t.drop_first();
        assert(t.len() == 2 && t[0] == s[1] && u.len() == 1 && u[0] == s[2] && u.drop_first().len() == 0);
    }
}

pub open spec fn has_row(t: Seq<(int, int, int)>, r: (int, int, int), n: nat) -> bool decreases n {
    n > 0 && (t[n - 1] == r || has_row(t, r, (n - 1) as nat))
}
pub proof fn lemma_has_row(t: Seq<(int, int, int)>, r: (int, int, int), n: nat)
    requires n <= t.len(),
    ensures has_row(t, r, n) <==> exists|i: int| 0 <= i < n && #[trigger] t[i] == r,
    decreases n,
{
    if n > 0 { lemma_has_row(t, r, (n - 1) as nat); }
}
/// rows i < n share no code with row k
pub open spec fn apart_from(t: Seq<(int, int, int)>, k: int, n: nat) -> bool decreases n {
    n == 0 || {
        let (x, y) = (t[k], t[n - 1]);
        x.0 != y.0 && x.1 != y.1 && x.1 != y.2 && x.2 != y.1 && x.2 != y.2 && apart_from(t, k, (n - 1) as nat)
    }
}
/// every row has a word of two letters and words of three letters that no row before has
pub open spec fn rows_good(t: Seq<(int, int, int)>, n: nat) -> bool decreases n {
    n == 0 || {
        is_two(t[n - 1].0) && is_three(t[n - 1].1) && is_three(t[n - 1].2) && apart_from(t, n - 1, (n - 1) as nat) && rows_good(t, (n - 1) as nat)
    }
}
proof fn lemma_apart(t: Seq<(int, int, int)>, k: int, n: nat)
    requires apart_from(t, k, n),
    ensures forall|i: int| 0 <= i < n ==> ({ let (x, y) = (t[k], #[trigger] t[i]); x.0 != y.0 && x.1 != y.1 && x.1 != y.2 && x.2 != y.1 && x.2 != y.2 }),
    decreases n,
{
    if n > 0 { lemma_apart(t, k, (n - 1) as nat); }
}
pub proof fn lemma_rows_good(t: Seq<(int, int, int)>, n: nat)
    requires rows_good(t, n), n <= t.len(),
    ensures
        forall|i: int| 0 <= i < n ==> is_two((#[trigger] t[i]).0) && is_three(t[i].1) && is_three(t[i].2),
        forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j ==> ({
            let (x, y) = (#[trigger] t[i], #[trigger] t[j]);
            x.0 != y.0 && x.1 != y.1 && x.1 != y.2 && x.2 != y.1 && x.2 != y.2
        }),
    decreases n,
{
    if n > 0 { lemma_rows_good(t, (n - 1) as nat); lemma_apart(t, n - 1, (n - 1) as nat); }
}

pub proof fn lemma_all_langs()
    ensures
        rows_good(iso_all(), iso_all().len()),
        iso_all() == iso_listed() + iso_others(),
        iso_all().len() == 184,
        iso_listed().len() == 146,
{
    assert(rows_good(iso_all(), iso_all().len())) by (compute_only);
    assert(iso_all().len() == 184) by (compute_only);
    assert(iso_listed().len() == 146) by (compute_only);
    reveal(iso_all);
}

#[verifier::opaque]
pub open spec fn iso_all() -> Seq<(int, int, int)> { iso_listed() + iso_others() }

/// two letters, terminological, bibliographic
#[verifier::opaque]
pub open spec fn iso_listed() -> Seq<(int, int, int)> {
    seq![
        (203423842, 4951760157141947710313594987, 4951760157141947710313594987), // ab abk abk
        (203423846, 4951760157141947710321983602, 4951760157141947710321983602), // af afr afr
        (203423851, 4951760157141947710332469345, 4951760157141947710332469345), // ak aka aka
        (241172593, 4951760157142026875182252137, 4951760157141947710334566498), // sq sqi alb
        (203423853, 4951760157141947710336663656, 4951760157141947710336663656), // am amh amh
        (203423858, 4951760157141947710347149409, 4951760157141947710347149409), // ar ara ara
        (218103929, 4951760157141978496687407205, 4951760157141947710347149421), // hy hye arm
        (203423859, 4951760157141947710349246573, 4951760157141947710349246573), // as asm asm
        (203423865, 4951760157141947710361829485, 4951760157141947710361829485), // ay aym aym
        (203423866, 4951760157141947710363926629, 4951760157141947710363926629), // az aze aze
        (205521005, 4951760157141952108358008941, 4951760157141952108358008941), // bm bam bam
        (205520993, 4951760157141952108358008939, 4951760157141952108358008939), // ba bak bak
        (211812469, 4951760157141965302539485299, 4951760157141952108358008945), // eu eus baq
        (205520997, 4951760157141952108366397548, 4951760157141952108366397548), // be bel bel
        (205521006, 4951760157141952108366397550, 4951760157141952108366397550), // bn ben ben
        (205521011, 4951760157141952108387369075, 4951760157141952108387369075), // bs bos bos
        (205520999, 4951760157141952108399951980, 4951760157141952108399951980), // bg bul bul
        (228589689, 4951760157142000486919962721, 4951760157141952108399951986), // my mya bur
        (207618145, 4951760157141956506404520052, 4951760157141956506404520052), // ca cat cat
        (230686841, 4951760157142004884966473825, 4951760157142004884966473825), // ny nya nya
        (255852648, 4951760157142057661488955503, 4951760157141956506419200105), // zh zho chi
        (207618166, 4951760157141956506419200118, 4951760157141956506419200118), // cv chv chv
        (207618159, 4951760157141956506433880179, 4951760157141956506433880179), // co cos cos
        (218103922, 4951760157141978496672727158, 4951760157141978496672727158), // hr hrv hrv
        (207618163, 4951760157141956506412908659, 4951760157141956506456948837), // cs ces cze
        (209715297, 4951760157141960904451031150, 4951760157141960904451031150), // da dan dan
        (209715318, 4951760157141960904467808374, 4951760157141960904467808374), // dv div div
        (230686828, 4951760157142004884939210852, 4951760157141960904492974196), // nl nld dut
        (209715322, 4951760157141960904503459951, 4951760157141960904503459951), // dz dzo dzo
        (211812462, 4951760157141965302524805223, 4951760157141965302524805223), // en eng eng
        (211812468, 4951760157141965302535290996, 4951760157141965302535290996), // et est est
        (211812453, 4951760157141965302543679589, 4951760157141965302543679589), // ee ewe ewe
        (213909610, 4951760157141969700560830570, 4951760157141969700560830570), // fj fij fij
        (213909609, 4951760157141969700560830574, 4951760157141969700560830574), // fi fin fin
        (213909618, 4951760157141969700579704929, 4951760157141969700579704933), // fr fra fre
        (213909606, 4951760157141969700585996396, 4951760157141969700585996396), // ff ful ful
        (216006764, 4951760157141974098613633127, 4951760157141974098613633127), // gl glg glg
        (224395361, 4951760157141991690776608884, 4951760157141974098598953071), // ka kat geo
        (209715301, 4951760157141960904459419765, 4951760157141974098598953074), // de deu ger
        (211812460, 4951760157141965302520610924, 4951760157141974098626216037), // el ell gre
        (216006766, 4951760157141974098626216046, 4951760157141974098626216046), // gn grn grn
        (216006773, 4951760157141974098632507498, 4951760157141974098632507498), // gu guj guj
        (218103924, 4951760157141978496637075572, 4951760157141978496637075572), // ht hat hat
        (218103905, 4951760157141978496637075573, 4951760157141978496637075573), // ha hau hau
        (218103909, 4951760157141978496645464162, 4951760157141978496645464162), // he heb heb
        (218103913, 4951760157141978496653852782, 4951760157141978496653852782), // hi hin hin
        (218103925, 4951760157141978496679018606, 4951760157141978496679018606), // hu hun hun
        (220201075, 4951760157141982894721335404, 4951760157141982894687780965), // is isl ice
        (220201063, 4951760157141982894685683823, 4951760157141982894685683823), // ig ibo ibo
        (220201060, 4951760157141982894710849636, 4951760157141982894710849636), // id ind ind
        (216006753, 4951760157141974098613633125, 4951760157141974098613633125), // ga gle gle
        (216006756, 4951760157141974098613633121, 4951760157141974098613633121), // gd gla gla
        (220201076, 4951760157141982894723432545, 4951760157141982894723432545), // it ita ita
        (222298209, 4951760157141987292761555054, 4951760157141987292761555054), // ja jpn jpn
        (224395372, 4951760157141991690776608876, 4951760157141991690776608876), // kl kal kal
        (224395374, 4951760157141991690776608878, 4951760157141991690776608878), // kn kan kan
        (224395378, 4951760157141991690776608885, 4951760157141991690776608885), // kr kau kau
        (224395379, 4951760157141991690776608883, 4951760157141991690776608883), // ks kas kas
        (224395371, 4951760157141991690776608890, 4951760157141991690776608890), // kk kaz kaz
        (224395373, 4951760157141991690791288941, 4951760157141991690791288941), // km khm khm
        (224395369, 4951760157141991690793386091, 4951760157141991690793386091), // ki kik kik
        (239075447, 4951760157141991690793386094, 4951760157141991690793386094), // rw kin kin
        (239075438, 4951760157142022477144129646, 4951760157142022477144129646), // rn run run
        (224395385, 4951760157141991690793386098, 4951760157141991690793386098), // ky kir kir
        (224395367, 4951760157141991690805969006, 4951760157141991690805969006), // kg kon kon
        (224395375, 4951760157141991690805969010, 4951760157141991690805969010), // ko kor kor
        (224395381, 4951760157141991690818551922, 4951760157141991690818551922), // ku kur kur
        (226492527, 4951760157141996088823119983, 4951760157141996088823119983), // lo lao lao
        (226492534, 4951760157141996088823119990, 4951760157141996088823119990), // lv lav lav
        (226492521, 4951760157141996088839897197, 4951760157141996088839897197), // li lim lim
        (226492526, 4951760157141996088839897198, 4951760157141996088839897198), // ln lin lin
        (226492532, 4951760157141996088839897204, 4951760157141996088839897204), // lt lit lit
        (226492514, 4951760157141996088862965882, 4951760157141996088862965882), // lb ltz ltz
        (226492519, 4951760157141996088865063015, 4951760157141996088865063015), // lg lug lug
        (228589675, 4951760157142000486890602596, 4951760157142000486869631075), // mk mkd mac
        (228589671, 4951760157142000486892699751, 4951760157142000486892699751), // mg mlg mlg
        (228589683, 4951760157142000486907379809, 4951760157142000486869631097), // ms msa may
        (228589676, 4951760157142000486869631084, 4951760157142000486869631084), // ml mal mal
        (228589684, 4951760157142000486892699764, 4951760157142000486892699764), // mt mlt mlt
        (228589682, 4951760157142000486869631090, 4951760157142000486869631090), // mr mar mar
        (228589672, 4951760157142000486869631080, 4951760157142000486869631080), // mh mah mah
        (228589678, 4951760157142000486898991214, 4951760157142000486898991214), // mn mon mon
        (230686817, 4951760157142004884916142197, 4951760157142004884916142197), // na nau nau
        (230686820, 4951760157142004884922433637, 4951760157142004884922433637), // nd nde nde
        (230686821, 4951760157142004884924530800, 4951760157142004884924530800), // ne nep nep
        (230686831, 4951760157142004884945502322, 4951760157142004884945502322), // no nor nor
        (230686834, 4951760157142004884918239340, 4951760157142004884918239340), // nr nbl nbl
        (232783971, 4951760157142009282966847593, 4951760157142009282966847593), // oc oci oci
        (232783981, 4951760157142009282998304877, 4951760157142009282998304877), // om orm orm
        (232783986, 4951760157142009282998304873, 4951760157142009282998304873), // or ori ori
        (232783987, 4951760157142009283000402035, 4951760157142009283000402035), // os oss oss
        (234881121, 4951760157142013681009164398, 4951760157142013681009164398), // pa pan pan
        (213909601, 4951760157141969700544053363, 4951760157142013681017553010), // fa fas per
        (234881132, 4951760157142013681038524524, 4951760157142013681038524524), // pl pol pol
        (234881140, 4951760157142013681038524530, 4951760157142013681038524530), // pt por por
        (234881139, 4951760157142013681051107443, 4951760157142013681051107443), // ps pus pus
        (236978293, 4951760157142018079097618533, 4951760157142018079097618533), // qu que que
        (239075439, 4951760157142022477131546734, 4951760157142022477144129645), // ro ron rum
        (239075445, 4951760157142022477144129651, 4951760157142022477144129651), // ru rus rus
        (241172589, 4951760157142026875173863535, 4951760157142026875173863535), // sm smo smo
        (241172583, 4951760157142026875148697703, 4951760157142026875148697703), // sg sag sag
        (241172577, 4951760157142026875148697710, 4951760157142026875148697710), // sa san san
        (241172579, 4951760157142026875184349284, 4951760157142026875184349284), // sc srd srd
        (241172594, 4951760157142026875184349296, 4951760157142026875184349296), // sr srp srp
        (241172590, 4951760157142026875175960673, 4951760157142026875175960673), // sn sna sna
        (241172580, 4951760157142026875175960676, 4951760157142026875175960676), // sd snd snd
        (241172585, 4951760157142026875165474926, 4951760157142026875165474926), // si sin sin
        (241172587, 4951760157142026875171766379, 4951760157142026875171766383), // sk slk slo
        (241172588, 4951760157142026875171766390, 4951760157142026875171766390), // sl slv slv
        (241172591, 4951760157142026875178057837, 4951760157142026875178057837), // so som som
        (241172596, 4951760157142026875178057844, 4951760157142026875178057844), // st sot sot
        (211812467, 4951760157142026875180154977, 4951760157142026875180154977), // es spa spa
        (241172597, 4951760157142026875190640750, 4951760157142026875190640750), // su sun sun
        (241172599, 4951760157142026875194835041, 4951760157142026875194835041), // sw swa swa
        (241172595, 4951760157142026875186446455, 4951760157142026875186446455), // ss ssw ssw
        (241172598, 4951760157142026875194835045, 4951760157142026875194835045), // sv swe swe
        (243269729, 4951760157142031273195208813, 4951760157142031273195208813), // ta tam tam
        (243269733, 4951760157142031273203597420, 4951760157142031273203597420), // te tel tel
        (243269735, 4951760157142031273207791723, 4951760157142031273207791723), // tg tgk tgk
        (243269736, 4951760157142031273209888865, 4951760157142031273209888865), // th tha tha
        (243269737, 4951760157142031273211986034, 4951760157142031273211986034), // ti tir tir
        (205521007, 4951760157141952108387369060, 4951760157142031273211986018), // bo bod tib
        (243269739, 4951760157142031273237151851, 4951760157142031273237151851), // tk tuk tuk
        (243269740, 4951760157142031273207791724, 4951760157142031273207791724), // tl tgl tgl
        (243269742, 4951760157142031273232957550, 4951760157142031273232957550), // tn tsn tsn
        (243269743, 4951760157142031273224568942, 4951760157142031273224568942), // to ton ton
        (243269746, 4951760157142031273237151858, 4951760157142031273237151858), // tr tur tur
        (243269747, 4951760157142031273232957551, 4951760157142031273232957551), // ts tso tso
        (243269748, 4951760157142031273195208820, 4951760157142031273195208820), // tt tat tat
        (243269751, 4951760157142031273241346153, 4951760157142031273241346153), // tw twi twi
        (243269753, 4951760157142031273195208808, 4951760157142031273195208808), // ty tah tah
        (245366887, 4951760157142035671258497127, 4951760157142035671258497127), // ug uig uig
        (245366891, 4951760157142035671262691442, 4951760157142035671262691442), // uk ukr ukr
        (245366898, 4951760157142035671277371492, 4951760157142035671277371492), // ur urd urd
        (245366906, 4951760157142035671294148706, 4951760157142035671294148706), // uz uzb uzb
        (247464037, 4951760157142040069296619630, 4951760157142040069296619630), // ve ven ven
        (247464041, 4951760157142040069305008229, 4951760157142040069305008229), // vi vie vie
        (249561185, 4951760157142044467357810798, 4951760157142044467357810798), // wa wln wln
        (207618169, 4951760157141956506454851693, 4951760157142044467343130732), // cy cym wel
        (249561199, 4951760157142044467364102252, 4951760157142044467364102252), // wo wol wol
        (213909625, 4951760157141969700579704953, 4951760157141969700579704953), // fy fry fry
        (251658344, 4951760157142048865395933295, 4951760157142048865395933295), // xh xho xho
        (253755497, 4951760157142053263444541540, 4951760157142053263444541540), // yi yid yid
        (253755503, 4951760157142053263457124466, 4951760157142053263457124466), // yo yor yor
        (255852641, 4951760157142057661488955489, 4951760157142057661488955489), // za zha zha
        (255852661, 4951760157142057661516218476, 4951760157142057661516218476), // zu zul zul
    ]
}

/// the other languages of ISO 639-1
#[verifier::opaque]
pub open spec fn iso_others() -> Seq<(int, int, int)> {
    seq![
        (203423841, 4951760157141947710311497842, 4951760157141947710311497842), // aa aar aar
        (203423845, 4951760157141947710355538021, 4951760157141947710355538021), // ae ave ave
        (203423854, 4951760157141947710347149415, 4951760157141947710347149415), // an arg arg
        (203423862, 4951760157141947710355538017, 4951760157141947710355538017), // av ava ava
        (205521000, 4951760157141952108374786152, 4951760157141952108374786152), // bh bih bih
        (205521001, 4951760157141952108374786163, 4951760157141952108374786163), // bi bis bis
        (205521010, 4951760157141952108393660517, 4951760157141952108393660517), // br bre bre
        (207618149, 4951760157141956506419200101, 4951760157141956506419200101), // ce che che
        (207618152, 4951760157141956506419200097, 4951760157141956506419200097), // ch cha cha
        (207618162, 4951760157141956506440171621, 4951760157141956506440171621), // cr cre cre
        (207618165, 4951760157141956506419200117, 4951760157141956506419200117), // cu chu chu
        (211812463, 4951760157141965302528999535, 4951760157141965302528999535), // eo epo epo
        (213909615, 4951760157141969700544053359, 4951760157141969700544053359), // fo fao fao
        (216006774, 4951760157141974098613633142, 4951760157141974098613633142), // gv glv glv
        (218103919, 4951760157141978496662241391, 4951760157141978496662241391), // ho hmo hmo
        (218103930, 4951760157141978496645464178, 4951760157141978496645464178), // hz her her
        (220201057, 4951760157141982894710849633, 4951760157141982894710849633), // ia ina ina
        (220201061, 4951760157141982894706655333, 4951760157141982894706655333), // ie ile ile
        (220201065, 4951760157141982894700363881, 4951760157141982894700363881), // ii iii iii
        (220201067, 4951760157141982894715043947, 4951760157141982894715043947), // ik ipk ipk
        (220201071, 4951760157141982894689878127, 4951760157141982894689878127), // io ido ido
        (220201077, 4951760157141982894704558197, 4951760157141982894704558197), // iu iku iku
        (222298230, 4951760157141987292730097782, 4951760157141987292730097782), // jv jav jav
        (224395370, 4951760157141991690818551905, 4951760157141991690818551905), // kj kua kua
        (224395382, 4951760157141991690805969005, 4951760157141991690805969005), // kv kom kom
        (224395383, 4951760157141956506433880178, 4951760157141956506433880178), // kw cor cor
        (226492513, 4951760157141996088823119988, 4951760157141996088823119988), // la lat lat
        (226492533, 4951760157141996088865063010, 4951760157141996088865063010), // lu lub lub
        (228589673, 4951760157142000486905282665, 4951760157142000486869631087), // mi mri mao
        (230686818, 4951760157142004884945502306, 4951760157142004884945502306), // nb nob nob
        (230686823, 4951760157142004884922433647, 4951760157142004884922433647), // ng ndo ndo
        (230686830, 4951760157142004884943405167, 4951760157142004884943405167), // nn nno nno
        (230686838, 4951760157142004884916142198, 4951760157142004884916142198), // nv nav nav
        (232783978, 4951760157142009282981527657, 4951760157142009282981527657), // oj oji oji
        (234881129, 4951760157142013681032233065, 4951760157142013681032233065), // pi pli pli
        (239075437, 4951760157142022477131546728, 4951760157142022477131546728), // rm roh roh
        (241172581, 4951760157142026875173863525, 4951760157142026875173863525), // se sme sme
        (247464047, 4951760157142040069317591148, 4951760157142040069317591148), // vo vol vol
    ]
}

}
