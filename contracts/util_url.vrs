//@ use crate::urls::*
broadcast use {crate::vshim::group_strings, crate::vshim::group_string_order, crate::vshim::group_seq};

//@ type UrlType eq
//@ const *

/// the class a text is taken for
pub open spec fn type_of(s: Seq<char>) -> UrlType {
    if s.len() > 0 && s[0] == '/' {
        if s.len() > 1 && s[1] == '/' { UrlType::SchemeRelative } else { UrlType::PathAbsolute }
    } else if abs_match(s) { UrlType::Absolute } else { UrlType::PathRelative }
}
pub open spec fn class_type(c: Cls) -> UrlType {
    match c { Cls::Abs(_) => UrlType::Absolute, Cls::Scheme => UrlType::SchemeRelative, Cls::PathAbs => UrlType::PathAbsolute, Cls::PathRel => UrlType::PathRelative }
}
pub proof fn lemma_type(x: Ref)
    requires ref_ok(x),
    ensures type_of(text(x)) == class_type(x.cls),
{
    let s = text(x);
    lemma_joined_chars(x.segs);
    match x.cls {
        Cls::Abs(h) => {
            let n = scheme(h).len() as int;
            assert(s[0] == 'h');
            assert(s[n] == ':' && s[n + 1] == '/');
            assert forall|j: int| 0 <= j < n implies schemechar(#[trigger] s[j]) by { assert(s[j] == scheme(h)[j]); }
            assert(abs_match(s));
        },
        Cls::Scheme => { assert(s[0] == '/' && s[1] == '/'); },
        Cls::PathAbs => {
            assert(s[0] == '/');
            if s.len() > 1 && s[1] == '/' { lemma_first(x); }
        },
        Cls::PathRel => {
            lemma_first(x);
            assert forall|i: int| 0 < i && i + 1 < s.len() && #[trigger] s[i] == ':' implies false by {}
        },
    }
}
proof fn lemma_first(x: Ref)
    requires ref_ok(x), x.cls is PathRel || x.cls is PathAbs,
    ensures x.cls is PathRel ==> text(x).len() == 0 || text(x)[0] != '/', x.cls is PathAbs ==> text(x).len() <= 1 || text(x)[1] != '/',
        forall|i: int| 0 <= i < text(x).len() ==> #[trigger] text(x)[i] != ':',
{
    let s = text(x);
    lemma_joined_chars(x.segs);
    let j = joined(x.segs);
    let h = head_text(x);
    let r = rest_text(x.query, x.frag);
    assert(s =~= h + j + r);
    assert(seg_ok(x.segs[0]));
    if j.len() > 0 { assert(j[0] != '/') by { if x.segs.len() > 1 { assert(j[0] == x.segs[0][0]); } else { assert(j[0] == x.segs[0][0]); } } }
    if r.len() > 0 { assert(r[0] == '?' || r[0] == '#'); }
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != ':' by {
        if x.query is Some {
            let q = x.query->0;
            if i == 0 {} else if i <= q.len() { assert(r[i] == q[i - 1]); } else if x.frag is Some && i > q.len() + 1 { assert(r[i] == x.frag->0[i - q.len() - 2]); }
        } else if x.frag is Some && i > 0 { assert(r[i] == x.frag->0[i - 1]); }
    }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != ':' by {
        if i < h.len() { assert(s[i] == h[i]); } else if i < h.len() + j.len() { assert(s[i] == j[i - h.len()]); } else { assert(s[i] == r[i - h.len() - j.len()]); }
    }
    if s.len() > h.len() { let n = h.len() as int; if j.len() > 0 { assert(s[n] == j[0]); } else { assert(s[n] == r[0]); } }
}

//@ fn util::ABSOLUTE_SCHEME_REGEXP
    ensures r.v() == abs_pattern(),
//@ end

//@ fn util::PROTOCOL_AND_HOST
    ensures r@ == origin_text(false, local()),
//@. at tail
    proof { }
//@ end

//@ fn util::get_url_type
    ensures r == type_of(input@),
//@ end

//@ fn util::build_unique_segment
    requires input@.len() <= 0x0800_0000,
    ensures !crate::vshim::occurs(input@, r@), exists|j: int| 0 <= j && r@ == #[trigger] seg_no(prefix@, j),
//@. loop 0
    invariant
        id >= 0,
        forall|j: int| 0 <= j < id ==> crate::vshim::occurs(input@, #[trigger] seg_no(prefix@, j)),
        input@.len() <= 0x0800_0000,
    decreases 0x7fff_ffff - id,
//@. at ls_0
    proof { lemma_few_idents(input@, prefix@, id as int); }
//@. at let_ident
    proof { assert(ident@ =~= seg_no(prefix@, id as int)); }
//@ end

pub proof fn lemma_segno_ok(s: Seq<char>)
    requires exists|j: int| 0 <= j && s == #[trigger] seg_no(seq!['p'], j),
    ensures seg_ok(s), s.len() > 0, s != dot(), s != dotdot(),
{
    let j = choose|j: int| 0 <= j && s == #[trigger] seg_no(seq!['p'], j);
    lemma_decimal_len(j);
    assert forall|i: int| 0 <= i < s.len() implies plain(#[trigger] s[i]) by { if i > 0 { assert(s[i] == crate::vshim::decimal(j)[i - 1]); } }
    assert(s[0] == 'p' && dot()[0] == '.' && dotdot()[0] == '.');
}

//@ fn util::build_safe_base
    requires input@.len() <= 0x0800_0000,
    ensures is_base(r@, input@),
//@. at let_segment
    proof {
        assert("p"@ =~= seq!['p']);
        assert(".."@ =~= dotdot());
        assert("/"@ =~= slash());
        lemma_segno_ok(segment@);
        assert(fresh_seg(segment@, input@));
    }
//@. at let_base
    proof { lemma_base_text(segment@, 0); }
//@. loop 0
    invariant base@ == serial(base_u(segment@, $i0 as nat)),
//@. at ls_0
    proof { lemma_base_text(segment@, $i0 as nat); }
//@. at le_0
    proof { assert(base@ =~= serial(base_u(segment@, ($i0 + 1) as nat))); }
//@ end

//@ fn util::compute_relative_url
    requires wf_u(root_url@), wf_u(target_url@),
    ensures forall|u: U, v: U| u_ok(u) && u_ok(v) && #[trigger] serial(u) == root_url@ && #[trigger] serial(v) == target_url@ ==> r@ == way(u, v),
//@. at let_root_parts
    let ghost (a, b) = (root_url.v(), target_url.v());
    proof {
        lemma_split_joined(a.segs);
        lemma_split_joined(b.segs);
        assert(root_parts.l() == seq![nil()] + a.segs);
        assert(target_parts.l() == seq![nil()] + b.segs);
        assert(root_parts.l().last() == root_parts.q@.last()@);
    }
    let ghost rq = root_parts.q@;
//@. at lb_0
    proof {
        assert(rq.len() == a.segs.len() + 1 && a.segs.len() > 0);
        assert(texts(rq).last() == a.segs.last());
        assert(texts(rq.drop_last()) =~= texts(rq).drop_last());
        assert((seq![nil()] + a.segs).drop_last() =~= seq![nil()] + a.segs.drop_last());
        assert(root_parts.q@ == (if a.segs.last().len() == 0 { rq.drop_last() } else { rq }));
        assert(root_parts.l() =~= seq![nil()] + strip(a.segs));
    }
//@. loop 0
    invariant
        parts(root_parts.l(), target_parts.l()) == parts(seq![nil()] + strip(a.segs), seq![nil()] + b.segs),
    decreases root_parts.q@.len(),
//@. at ls_0
    proof {
        assert(root_parts.l()[0] == root_parts.q@[0]@);
        assert(target_parts.l()[0] == target_parts.q@[0]@);
        assert(texts(root_parts.q@.drop_first()) =~= root_parts.l().drop_first());
        assert(texts(target_parts.q@.drop_first()) =~= target_parts.l().drop_first());
    }
//@. at la_0
    let ghost (rl, tl) = (root_parts.l(), target_parts.l());
    let ghost tq = target_parts.q@;
    proof {
        if rl.len() > 0 { assert(rl[0] == root_parts.q@[0]@); }
        if tl.len() > 0 { assert(tl[0] == target_parts.q@[0]@); }
        assert(parts(rl, tl) == ups(rl.len()) + tl);
        lemma_parts_common(seq![nil()], strip(a.segs), b.segs);
        assert(ups(rl.len()) + tl == parts(strip(a.segs), b.segs));
        assert(".."@ =~= dotdot());
        assert("/"@ =~= slash());
    }
//@. loop 1
    invariant
        $seq1.len() == rl.len(),
        texts(__out_0@) =~= ups($i1 as nat),
//@. at ls_1
    let ghost out1 = __out_0@;
//@. at le_1
    proof {
        assert(__out_0@.len() == out1.len() + 1 && __out_0@.last()@ == dotdot());
        assert(texts(__out_0@) =~= texts(out1).push(dotdot()));
        assert(ups($i1 as nat).push(dotdot()) =~= ups(($i1 + 1) as nat));
    }
//@. at la_1
    let ghost up0 = __out_0@;
    proof { assert(texts(up0) =~= ups(rl.len())); }
//@. loop 2
    invariant
        $seq2 == tq,
        __out_0@ == up0 + tq.take($i2),
//@. at la_2
    proof {
        assert(tq.take(tq.len() as int) =~= tq);
        assert(texts(__out_0@) =~= ups(rl.len()) + tl);
    }
//@. at let_relative_path
    let ghost path = relative_path@;
    proof { assert(path == joined(parts(strip(a.segs), b.segs))); }
//@. at tail
    proof { assert(relative_path@ =~= way(a, b)); }
//@ end

pub proof fn lemma_wf_u(u: U)
    requires u_ok(u),
    ensures wf_u(serial(u)),
{}
pub open spec fn a_ref(s: Seq<char>) -> Ref { choose|x: Ref| ref_ok(x) && text(x) == s }
pub open spec fn a_seg(b: Seq<char>, input: Seq<char>) -> Seg { choose|p: Seg| fresh_seg(p, input) && b == serial(base_u(p, dots_in(input))) }
/// the result of a function of the URL handlers: f of the reference, whichever it is
pub open spec fn maps(input: Seq<char>, r: Seq<char>, f: spec_fn(Ref) -> Ref) -> bool {
    forall|x: Ref| ref_ok(x) && #[trigger] text(x) == input ==> r == text(f(x))
}

//@ fn util::NORMALIZE
    requires wf(input@), input@.len() <= 0x0800_0000,
    ensures maps(input@, r@, |x: Ref| norm(x)), wf(r@), r@.len() <= input@.len() + 2,
//@. at let_base
    let ghost p = a_seg(base@, input@);
    let ghost b = base_u(p, dots_in(input@));
    proof { lemma_prefix_lens(); lemma_type(a_ref(input@)); lemma_handled(a_ref(input@), p, input@); }
//@. at tail
    proof {
        assert forall|x: Ref| ref_ok(x) && #[trigger] text(x) == input@ implies prints(x, p, dots_in(input@), urlx.v(), norm(x)) && type_of(input@) == class_type(x.cls) by {
            lemma_type(x);
            lemma_handled(x, p, input@);
        }
        assert forall|x: Ref| ref_ok(x) && #[trigger] text(x) == input@ implies
            (x.cls is Abs ==> result@ == text(norm(x))) && (x.cls is Scheme ==> crate::vshim::skipped(result@, 5) == text(norm(x)))
            && (x.cls is PathAbs ==> crate::vshim::skipped(result@, 11) == text(norm(x))) && (x.cls is PathRel ==> way(b, urlx.v()) == text(norm(x))) by {
            lemma_prints(x, p, dots_in(input@), urlx.v(), norm(x));
        }
        let z = a_ref(input@);
        lemma_norm_ok(z); lemma_norm_size(z);
        assert(wf(text(norm(z))));
    }
//@ end

//@ fn util::ENSURE_DIRECTORY
    requires wf(input@), input@.len() <= 0x0800_0000,
    ensures maps(input@, r@, |x: Ref| ensured(x)), wf(r@), r@.len() <= input@.len() + 2,
//@. at let_base
    let ghost p = a_seg(base@, input@);
    let ghost b = base_u(p, dots_in(input@));
    proof { lemma_prefix_lens(); lemma_type(a_ref(input@)); lemma_handled(a_ref(input@), p, input@); }
//@. at let_urlx_1
    let ghost u = urlx.v();
    proof {
        lemma_slash_path(u.segs);
        lemma_slashed_ok(u.segs);
        assert("/"@ =~= slash());
        assert("/"@.len() == 1 && "/"@[0] == '/');
        if u.segs.last().len() == 0 { assert(with_list(u, slashed(u.segs)) == u); }
    }
//@. at let_result
    proof { assert(urlx.v() == with_list(u, slashed(u.segs))); }
//@. at tail
    proof {
        assert forall|x: Ref| ref_ok(x) && #[trigger] text(x) == input@ implies prints(x, p, dots_in(input@), urlx.v(), ensured(x)) && type_of(input@) == class_type(x.cls) by {
            lemma_type(x);
            lemma_handled(x, p, input@);
        }
        assert forall|x: Ref| ref_ok(x) && #[trigger] text(x) == input@ implies
            (x.cls is Abs ==> result@ == text(ensured(x))) && (x.cls is Scheme ==> crate::vshim::skipped(result@, 5) == text(ensured(x)))
            && (x.cls is PathAbs ==> crate::vshim::skipped(result@, 11) == text(ensured(x))) && (x.cls is PathRel ==> way(b, urlx.v()) == text(ensured(x))) by {
            lemma_prints(x, p, dots_in(input@), urlx.v(), ensured(x));
        }
        let z = a_ref(input@);
        lemma_norm_ok(z); lemma_norm_size(z);
        assert(wf(text(ensured(z))));
    }
//@ end

//@ fn util::TRIM_FILENAME
    requires wf(input@), input@.len() <= 0x0800_0000,
    ensures maps(input@, r@, |x: Ref| trimmed(x)), wf(r@), r@.len() <= input@.len() + 2,
//@. at let_base
    let ghost p = a_seg(base@, input@);
    let ghost b = base_u(p, dots_in(input@));
    proof { lemma_prefix_lens(); lemma_type(a_ref(input@)); lemma_handled(a_ref(input@), p, input@); }
//@. at let_urlx_1
    let ghost u = urlx.v();
//@. at let_path_1
    proof {
        lemma_split_joined(u.segs);
        lemma_trim_ok(u.segs);
        lemma_slash_path(trim_list(u.segs));
        let n = path@.len() as int;
        assert(texts(path@).last() == path@[n - 1]@);
        assert((seq![nil()] + u.segs).last() == u.segs.last());
        assert(texts(path@.drop_last()) =~= texts(path@).drop_last());
        assert((seq![nil()] + u.segs).drop_last() =~= seq![nil()] + u.segs.drop_last());
        assert(u.segs.len() == 1 ==> texts(path@).drop_last() =~= seq![nil()]);
        assert("/"@ =~= slash());
        assert(crate::vshim::join_text(seq![nil()], slash()) =~= nil());
    }
//@. at let_result
    proof { assert(urlx.v() == with_list(u, trim_list(u.segs))); }
//@. at tail
    proof {
        assert forall|x: Ref| ref_ok(x) && #[trigger] text(x) == input@ implies prints(x, p, dots_in(input@), urlx.v(), trimmed(x)) && type_of(input@) == class_type(x.cls) by {
            lemma_type(x);
            lemma_handled(x, p, input@);
        }
        assert forall|x: Ref| ref_ok(x) && #[trigger] text(x) == input@ implies
            (x.cls is Abs ==> result@ == text(trimmed(x))) && (x.cls is Scheme ==> crate::vshim::skipped(result@, 5) == text(trimmed(x)))
            && (x.cls is PathAbs ==> crate::vshim::skipped(result@, 11) == text(trimmed(x))) && (x.cls is PathRel ==> way(b, urlx.v()) == text(trimmed(x))) by {
            lemma_prints(x, p, dots_in(input@), urlx.v(), trimmed(x));
        }
        let z = a_ref(input@);
        lemma_trimmed_ok(z);
        assert(wf(text(trimmed(z))));
    }
//@ end

pub open spec fn a_url(s: Seq<char>) -> bool { exists|u: U| #[trigger] is_url(s, u) }
/// r: the reference s resolved against the URL b
pub open spec fn resolved(b: Seq<char>, s: Seq<char>, r: Seq<char>) -> bool {
    forall|u: U, x: Ref| ref_ok(x) && #[trigger] text(x) == s && #[trigger] is_url(b, u) ==> r == serial(res_u(u, x))
}

//@ fn util::with_base
    requires wf(url@), base is Some ==> a_url(base->0@),
    ensures base is None ==> r@ == url@, base is Some ==> resolved(base->0@, url@, r@),
//@. head
    hide(crate::urls::res_u);
//@. at start
    proof {
        let x = a_ref(url@);
        assert(ref_ok(x) && text(x) == url@);
        assert forall|u: U, x: Ref| u_ok(u) && ref_ok(x) implies u_ok(#[trigger] res_u(u, x)) by { lemma_ref_u(u, x); }
        if base is Some {
            let u = choose|u: U| #[trigger] is_url(base->0@, u);
            assert(is_url(base->0@, u));
        }
    }
//@ end

//@ fn util::replace_if_possible
    requires wf(root@), wf(target@), root@.len() <= 0x0200_0000, target@.len() <= 0x0200_0000,
    ensures forall|x: Ref, y: Ref| ref_ok(x) && ref_ok(y) && #[trigger] text(x) == root@ && #[trigger] text(y) == target@ && relative_defined(x, y) ==>
        if same_origin(x, y) { r is Some && r->0@ == relative_text(x, y) } else { r is None },
//@. head
    hide(crate::urls::relative_text);
    hide(crate::urls::joined);
    hide(crate::urls::res_u);
    hide(crate::urls::ref_ok);
    hide(crate::urls::text);
    hide(crate::urls::u_ok);
    hide(crate::urls::way);
//@. at let_url_type
    proof {
        lemma_type(a_ref(root@));
        lemma_type(a_ref(target@));
        assert forall|x: Ref, y: Ref| ref_ok(x) && ref_ok(y) && #[trigger] text(x) == root@ && #[trigger] text(y) == target@ implies
            type_of(root@) == class_type(x.cls) && type_of(target@) == class_type(y.cls) by {
            lemma_type(x);
            lemma_type(y);
        }
    }
//@. at let_base
    let ghost input = root@ + target@;
    let ghost p = a_seg(base@, input);
    let ghost m = dots_in(input);
    let ghost b = base_u(p, m);
    let ghost (x0, y0) = (a_ref(root@), a_ref(target@));
    proof {
        assert(is_base(base@, input));
        lemma_base_ok(p, m);
        lemma_ref_u(b, x0);
        lemma_ref_u(b, y0);
        lemma_res_origin(p, m, x0);
        lemma_res_origin(p, m, y0);
        lemma_empty_ref();
    }
//@. at ret_1
    proof {
        assert(root_url.v() == res_u(b, x0) && target_url.v() == res_u(b, y0));
        assert forall|x: Ref, y: Ref| ref_ok(x) && ref_ok(y) && #[trigger] text(x) == root@ && #[trigger] text(y) == target@ implies !same_origin(x, y) by {
            assert(root_url.v() == res_u(b, x) && target_url.v() == res_u(b, y));
            lemma_res_origin(p, m, x);
            lemma_res_origin(p, m, y);
        }
    }
//@. at tail
    proof {
        assert(root_url.v() == res_u(b, x0) && target_url.v() == res_u(b, y0));
        assert forall|x: Ref, y: Ref| ref_ok(x) && ref_ok(y) && #[trigger] text(x) == root@ && #[trigger] text(y) == target@ implies
            same_origin(x, y) && (relative_defined(x, y) ==> way(root_url.v(), target_url.v()) == relative_text(x, y)) by {
            assert(root_url.v() == res_u(b, x) && target_url.v() == res_u(b, y));
            lemma_res_origin(p, m, x);
            lemma_res_origin(p, m, y);
            lemma_way(x, y, p, root@, target@);
        }
    }
//@ end

//@ fn util::relative
    requires wf(root@), wf(target@), root@.len() <= 0x0200_0000, target@.len() <= 0x0200_0000,
    ensures forall|x: Ref, y: Ref| ref_ok(x) && ref_ok(y) && #[trigger] text(x) == root@ && #[trigger] text(y) == target@ && relative_defined(x, y) ==> r@ == relative_text(x, y),
//@ end

//@ fn util::join
    requires wf(root@), wf(path@), root@.len() <= 0x0200_0000, path@.len() <= 0x0200_0000,
    ensures forall|x: Ref, y: Ref| ref_ok(x) && ref_ok(y) && #[trigger] text(x) == root@ && #[trigger] text(y) == path@ ==> r@ == text(joined_ref(x, y)),
        wf(r@), r@.len() <= root@.len() + path@.len() + 8,
//@. head
    hide(crate::urls::joined_ref);
    hide(crate::urls::joined);
    hide(crate::urls::res_u);
    hide(crate::urls::ref_ok);
    hide(crate::urls::text);
    hide(crate::urls::u_ok);
    hide(crate::urls::way);
    hide(crate::urls::serial);
    hide(crate::urls::ensured);
    hide(crate::urls::norm);
    hide(crate::urls::root_u);
    hide(crate::urls::origin_text);
    hide(crate::urls::is_url);
//@. at start
    let ghost (rt, pt) = (root@, path@);
    let ghost (x0, y0) = (a_ref(rt), a_ref(pt));
    proof {
        lemma_type(x0);
        lemma_type(y0);
        lemma_norm_ok(x0);
        lemma_norm_ok(y0);
        lemma_norm_size(x0);
        lemma_joined_ref_ok(x0, y0);
        lemma_local_ok();
        lemma_prefix_lens();
        assert(ref_ok(x0) && ref_ok(y0) && text(x0) == rt && text(y0) == pt);
        assert(wf(text(joined_ref(x0, y0))));
        assert forall|x: Ref, y: Ref| ref_ok(x) && ref_ok(y) && #[trigger] text(x) == rt && #[trigger] text(y) == pt implies
            type_of(rt) == class_type(x.cls) && type_of(pt) == class_type(y.cls) by {
            lemma_type(x);
            lemma_type(y);
        }
    }
//@. at let_root
    proof {
        assert(root@ == text(ensured(x0)) && ref_ok(ensured(x0)));
        assert(wf(root@));
    }
//@. at ret_0
    proof {
        assert forall|x: Ref, y: Ref| ref_ok(x) && ref_ok(y) && #[trigger] text(x) == rt && #[trigger] text(y) == pt implies joined_ref(x, y) == y by { lemma_joined_norm(x, y); }
    }
//@. at ret_1
    proof {
        lemma_root_u(x0);
        assert(is_url(root@, root_u(x0)));
        assert forall|x: Ref, y: Ref| ref_ok(x) && ref_ok(y) && #[trigger] text(x) == rt && #[trigger] text(y) == pt implies
            is_url(root@, root_u(x)) && serial(res_u(root_u(x), y)) == text(joined_ref(x, y)) by {
            assert(root@ == text(ensured(x)));
            lemma_root_u(x);
            lemma_join_abs(x, y);
        }
    }
//@. at ret_2
    proof {
        assert forall|x: Ref, y: Ref| ref_ok(x) && ref_ok(y) && #[trigger] text(x) == rt && #[trigger] text(y) == pt implies joined_ref(x, y) == norm(y) by { lemma_joined_norm(x, y); }
    }
//@. at ret_3
    proof {
        lemma_root_u(x0);
        lemma_is_serial(root_u(x0));
        assert(res_u(host_u(), ensured(x0)) == root_u(x0));
        assert forall|x: Ref, y: Ref| ref_ok(x) && ref_ok(y) && #[trigger] text(x) == rt && #[trigger] text(y) == pt implies
            text(ensured(x)) == root@ && ref_ok(ensured(x)) && res_u(host_u(), ensured(x)) == root_u(x) && is_url(serial(root_u(x)), root_u(x))
            && crate::vshim::skipped(serial(res_u(root_u(x), y)), 5) == text(joined_ref(x, y)) by {
            assert(root@ == text(ensured(x)));
            lemma_root_u(x);
            lemma_norm_ok(x);
            lemma_is_serial(root_u(x));
            lemma_join_abs(x, y);
        }
    }
//@. at ret_4
    proof {
        assert forall|x: Ref, y: Ref| ref_ok(x) && ref_ok(y) && #[trigger] text(x) == rt && #[trigger] text(y) == pt implies joined_ref(x, y) == norm(y) by { lemma_joined_norm(x, y); }
    }
//@. at ret_5
    proof {
        lemma_root_u(x0);
        lemma_is_serial(root_u(x0));
        assert(res_u(host_u(), ensured(x0)) == root_u(x0));
        assert forall|x: Ref, y: Ref| ref_ok(x) && ref_ok(y) && #[trigger] text(x) == rt && #[trigger] text(y) == pt implies
            text(ensured(x)) == root@ && ref_ok(ensured(x)) && res_u(host_u(), ensured(x)) == root_u(x) && is_url(serial(root_u(x)), root_u(x))
            && crate::vshim::skipped(serial(res_u(root_u(x), y)), 11) == text(joined_ref(x, y)) by {
            assert(root@ == text(ensured(x)));
            lemma_root_u(x);
            lemma_norm_ok(x);
            lemma_is_serial(root_u(x));
            lemma_join_abs(x, y);
        }
    }
//@. at let_base
    let ghost input = pt + root@;
    let ghost p = a_seg(base@, input);
    let ghost m = dots_in(input);
    let ghost b = base_u(p, m);
    proof {
        assert(is_base(base@, input));
        lemma_base_ok(p, m);
        lemma_is_serial(b);
        lemma_ref_u(b, ensured(x0));
        lemma_is_serial(res_u(b, ensured(x0)));
        assert forall|x: Ref, y: Ref| ref_ok(x) && ref_ok(y) && #[trigger] text(x) == rt && #[trigger] text(y) == pt implies
            text(ensured(x)) == root@ && ref_ok(ensured(x)) && is_url(serial(res_u(b, ensured(x))), res_u(b, ensured(x)))
            && u_ok(res_u(res_u(b, ensured(x)), y)) && way(b, res_u(res_u(b, ensured(x)), y)) == text(joined_ref(x, y)) by {
            assert(root@ == text(ensured(x)));
            lemma_norm_ok(x);
            lemma_join_base(x, y, p, pt, root@);
            lemma_ref_u(b, ensured(x));
            lemma_is_serial(res_u(b, ensured(x)));
        }
    }
//@. at let_new_path
    proof {
        assert(new_path@ == serial(res_u(res_u(b, ensured(x0)), y0)));
        assert forall|x: Ref, y: Ref| ref_ok(x) && ref_ok(y) && #[trigger] text(x) == rt && #[trigger] text(y) == pt implies
            new_path@ == serial(res_u(res_u(b, ensured(x)), y)) by {
            assert(text(ensured(x)) == root@);
        }
    }
//@ end

pub open spec fn from_root(uproot: bool, s: Ref) -> Ref { if uproot && s.cls is PathAbs { Ref { cls: Cls::PathRel, ..s } } else { s } }
/// the URL of a source: without a leading slash if there is a root, normal, under the root, and under the map's directory
pub open spec fn source_ref(sr: Option<Ref>, s: Ref, mu: Option<Ref>) -> Ref {
    let n = norm(from_root(sr is Some, s));
    let a = if sr is Some { joined_ref(sr->0, n) } else { n };
    if mu is Some { joined_ref(trimmed(mu->0), a) } else { a }
}
pub proof fn lemma_uproot(s: Ref)
    requires ref_ok(s), s.cls is PathAbs,
    ensures ref_ok(Ref { cls: Cls::PathRel, ..s }), crate::vshim::replace_first(text(s), slash(), nil()) == text(Ref { cls: Cls::PathRel, ..s }),
{
    let t = text(s);
    assert(t.take(1) =~= slash());
    assert(nil() + t.skip(1) =~= text(Ref { cls: Cls::PathRel, ..s }));
}
pub open spec fn an_opt(s: Option<&str>) -> Option<Ref> { if s is Some { Some(a_ref(s->0@)) } else { None } }
pub open spec fn wf_opt(s: Option<&str>) -> bool { s is Some ==> wf(s->0@) && s->0@.len() <= 0x0040_0000 }
/// the references a text stands for, if it is there
pub open spec fn is_opt(x: Option<Ref>, s: Option<&str>) -> bool {
    (x is Some <==> s is Some) && (x is Some ==> ref_ok(x->0) && text(x->0) == s->0@)
}

pub proof fn lemma_uproot_len(s: Seq<char>)
    ensures crate::vshim::replace_first(s, slash(), nil()).len() <= s.len(),
    decreases s.len()
{
    if s.len() > 0 && s.take(1) != slash() { lemma_uproot_len(s.skip(1)); }
}

//@ fn util::compute_source_url
    requires wf(source_url@), source_url@.len() <= 0x0040_0000, wf_opt(source_root), wf_opt(source_map_url),
    ensures forall|sr: Option<Ref>, s: Ref, mu: Option<Ref>| #![trigger source_ref(sr, s, mu)]
        ref_ok(s) && text(s) == source_url@ && is_opt(sr, source_root) && is_opt(mu, source_map_url) ==> r@ == text(source_ref(sr, s, mu)),
        wf(r@),
//@. head
    hide(crate::urls::joined_ref);
    hide(crate::urls::joined);
    hide(crate::urls::ref_ok);
    hide(crate::urls::text);
    hide(crate::urls::norm);
    hide(crate::urls::trimmed);
//@. at start
    let ghost given = source_url@;
    let ghost s0 = a_ref(given);
    proof {
        assert("/"@ =~= slash());
        assert(""@ =~= nil());
        assert(ref_ok(s0) && text(s0) == given);
        assert forall|s: Ref| ref_ok(s) && #[trigger] text(s) == given implies type_of(given) == class_type(s.cls)
            && (s.cls is PathAbs ==> ref_ok(Ref { cls: Cls::PathRel, ..s }) && crate::vshim::replace_first(given, slash(), nil()) == text(Ref { cls: Cls::PathRel, ..s })) by {
            lemma_type(s);
            if s.cls is PathAbs { lemma_uproot(s); }
        }
        lemma_uproot_len(given);
    }
    let ghost cut = if source_root is Some && type_of(given) is PathAbsolute { crate::vshim::replace_first(given, slash(), nil()) } else { given };
//@. at let_url
    proof {
        assert forall|s: Ref| ref_ok(s) && #[trigger] text(s) == given implies url@ == text(norm(from_root(source_root is Some, s))) && ref_ok(norm(from_root(source_root is Some, s))) by {
            let s1 = from_root(source_root is Some, s);
            assert(ref_ok(s1) && text(s1) == cut);
            lemma_norm_ok(s1);
        }
    }
//@. at tail
    proof {
        assert forall|sr: Option<Ref>, s: Ref, mu: Option<Ref>| #![trigger source_ref(sr, s, mu)]
            ref_ok(s) && text(s) == given && is_opt(sr, source_root) && is_opt(mu, source_map_url) implies url@ == text(source_ref(sr, s, mu)) by {
            let n = norm(from_root(sr is Some, s));
            lemma_norm_ok(from_root(sr is Some, s));
            let a = if sr is Some { joined_ref(sr->0, n) } else { n };
            if sr is Some {
                assert(text(sr->0) == source_root->0@ && text(n) == text(n));
                lemma_joined_ref_ok(sr->0, n);
                assert(text(a) == text(a));
            }
            if mu is Some {
                assert(text(mu->0) == source_map_url->0@);
                lemma_trimmed_ok(mu->0);
                assert(text(trimmed(mu->0)) == text(trimmed(mu->0)));
            }
        }
    }
//@ end
//@ fn UrlType::derived_clone
    ensures r == *self,
//@ end
