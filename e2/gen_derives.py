#!/usr/bin/env python3
"""Writes contracts/derives.gen.vrs: the names #[enum_derive] supports, what each selects, and the traits each needs."""
import os
# module path -> names (all features on). From the documentation, not from the code.
T = """core::convert::as_mut AsMut
core::convert::as_ref AsRef
core::fmt::debug Debug fmt::Debug
core::fmt::display Display fmt::Display
core::fmt::pointer fmt::Pointer
core::fmt::binary fmt::Binary
core::fmt::octal fmt::Octal
core::fmt::upper_hex fmt::UpperHex
core::fmt::lower_hex fmt::LowerHex
core::fmt::upper_exp fmt::UpperExp
core::fmt::lower_exp fmt::LowerExp
core::fmt::write fmt::Write
core::iter::iterator Iterator
core::iter::double_ended_iterator DoubleEndedIterator
core::iter::exact_size_iterator ExactSizeIterator
core::iter::fused_iterator FusedIterator
core::iter::trusted_len TrustedLen
core::iter::extend Extend
core::ops::deref Deref
core::ops::deref_mut DerefMut
core::ops::index Index
core::ops::index_mut IndexMut
core::ops::range_bounds RangeBounds
core::ops::fn_ Fn
core::ops::fn_mut FnMut
core::ops::fn_once FnOnce
core::ops::coroutine Coroutine
core::future Future
std::io::read Read io::Read
std::io::buf_read BufRead io::BufRead
std::io::seek Seek io::Seek
std::io::write Write io::Write
std::error Error error::Error
ty_impls::transpose Transpose
external::futures03::stream futures03::Stream
external::futures03::sink futures03::Sink
external::futures03::async_read futures03::AsyncRead
external::futures03::async_write futures03::AsyncWrite
external::futures03::async_seek futures03::AsyncSeek
external::futures03::async_buf_read futures03::AsyncBufRead
external::futures01::future futures01::Future
external::futures01::stream futures01::Stream
external::futures01::sink futures01::Sink
external::rayon::par_iter rayon::ParallelIterator
external::rayon::indexed_par_iter rayon::IndexedParallelIterator
external::rayon::par_extend rayon::ParallelExtend
external::serde::serialize serde::Serialize
external::tokio1::async_read tokio1::AsyncRead
external::tokio1::async_write tokio1::AsyncWrite
external::tokio1::async_seek tokio1::AsyncSeek
external::tokio1::async_buf_read tokio1::AsyncBufRead
external::tokio03::async_read tokio03::AsyncRead
external::tokio03::async_write tokio03::AsyncWrite
external::tokio03::async_seek tokio03::AsyncSeek
external::tokio03::async_buf_read tokio03::AsyncBufRead
external::tokio02::async_read tokio02::AsyncRead
external::tokio02::async_write tokio02::AsyncWrite
external::tokio02::async_seek tokio02::AsyncSeek
external::tokio02::async_buf_read tokio02::AsyncBufRead
external::tokio01::async_read tokio01::AsyncRead
external::tokio01::async_write tokio01::AsyncWrite
external::http_body1::body http_body1::Body"""
table = [(l.split()[0], l.split()[1:]) for l in T.splitlines()]
# trait -> its supertraits among the traits that can be requested (transitively closed)
D = {"Copy": "Clone", "Eq": "PartialEq", "PartialOrd": "PartialEq", "Ord": "PartialOrd Eq PartialEq", "DerefMut": "Deref", "IndexMut": "Index",
     "Fn": "FnMut FnOnce", "FnMut": "FnOnce", "DoubleEndedIterator": "Iterator", "ExactSizeIterator": "Iterator", "FusedIterator": "Iterator", "TrustedLen": "Iterator",
     "BufRead": "Read", "io::BufRead": "Read", "Error": "Display Debug", "error::Error": "Display Debug", "rayon::IndexedParallelIterator": "rayon::ParallelIterator",
     "futures03::AsyncBufRead": "futures03::AsyncRead", "tokio1::AsyncBufRead": "tokio1::AsyncRead", "tokio03::AsyncBufRead": "tokio03::AsyncRead", "tokio02::AsyncBufRead": "tokio02::AsyncRead",
     "tokio01::AsyncRead": "Read", "tokio01::AsyncWrite": "Write"}
D = {k: v.split() for k, v in D.items()}
for k, v in D.items():
    for x in v:
        assert set(D.get(x, [])) <= set(v), (k, x)
alias = [n for _, n in table if len(n) == 2]
names = list(dict.fromkeys([x for _, n in table for x in n] + [x for k, v in D.items() for x in [k] + v]))
o = "=== prelude\n// ---- the names: the specification's tables ----\n"
o += "/// The literals below are pairwise distinct (the generator numbers distinct strings).\npub uninterp spec fn code(s: Seq<char>) -> int;\npub broadcast axiom fn ax_code(s: Seq<char>)\n    ensures ({ &&& true\n"
o += "".join(f'    &&& code("{n}"@) == {i}\n' for i, n in enumerate(names)) + "    }), #[trigger] code(s) == code(s);\n"
o += "pub uninterp spec fn pcode(s: Seq<char>) -> int;\npub broadcast axiom fn ax_path(s: Seq<char>)\n    ensures ({ &&& true\n" + "".join(f'    &&& pcode("{p}"@) == {i}\n' for i, (p, _) in enumerate(table)) + "    }), #[trigger] pcode(s) == pcode(s);\n"
o += "pub open spec fn selects(s: Seq<char>) -> Option<Seq<char>> {\n    " + " else ".join("if " + " || ".join(f'code(s) == {names.index(n)} && s == "{n}"@' for n in ns) + f' {{ Some("{p}"@) }}' for p, ns in table) + " else { None }\n}\n"
o += "pub open spec fn needs(s: Seq<char>) -> Seq<Seq<char>> {\n    " + " else ".join(f'if s == "{k}"@ {{ seq![{", ".join(chr(34) + x + chr(34) + "@" for x in v)}] }}' for k, v in D.items()) + " else { Seq::empty() }\n}\n"
o += "/// The other name of a trait that has two.\npub open spec fn other(s: Seq<char>) -> Option<Seq<char>> {\n    " + " else ".join(f'if s == "{a}"@ {{ Some("{b}"@) }} else if s == "{b}"@ {{ Some("{a}"@) }}' for a, b in alias) + " else { None }\n}\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "contracts/derives.gen.vrs"), "w").write(o)
