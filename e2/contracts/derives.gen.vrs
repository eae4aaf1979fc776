=== prelude
// ---- the names: the specification's tables ----
/// The literals below are pairwise distinct (the generator numbers distinct strings).
pub uninterp spec fn code(s: Seq<char>) -> int;
pub broadcast axiom fn ax_code(s: Seq<char>)
    ensures ({ &&& true
    &&& code("AsMut"@) == 0
    &&& code("AsRef"@) == 1
    &&& code("Debug"@) == 2
    &&& code("fmt::Debug"@) == 3
    &&& code("Display"@) == 4
    &&& code("fmt::Display"@) == 5
    &&& code("fmt::Pointer"@) == 6
    &&& code("fmt::Binary"@) == 7
    &&& code("fmt::Octal"@) == 8
    &&& code("fmt::UpperHex"@) == 9
    &&& code("fmt::LowerHex"@) == 10
    &&& code("fmt::UpperExp"@) == 11
    &&& code("fmt::LowerExp"@) == 12
    &&& code("fmt::Write"@) == 13
    &&& code("Iterator"@) == 14
    &&& code("DoubleEndedIterator"@) == 15
    &&& code("ExactSizeIterator"@) == 16
    &&& code("FusedIterator"@) == 17
    &&& code("TrustedLen"@) == 18
    &&& code("Extend"@) == 19
    &&& code("Deref"@) == 20
    &&& code("DerefMut"@) == 21
    &&& code("Index"@) == 22
    &&& code("IndexMut"@) == 23
    &&& code("RangeBounds"@) == 24
    &&& code("Fn"@) == 25
    &&& code("FnMut"@) == 26
    &&& code("FnOnce"@) == 27
    &&& code("Coroutine"@) == 28
    &&& code("Future"@) == 29
    &&& code("Read"@) == 30
    &&& code("io::Read"@) == 31
    &&& code("BufRead"@) == 32
    &&& code("io::BufRead"@) == 33
    &&& code("Seek"@) == 34
    &&& code("io::Seek"@) == 35
    &&& code("Write"@) == 36
    &&& code("io::Write"@) == 37
    &&& code("Error"@) == 38
    &&& code("error::Error"@) == 39
    &&& code("Transpose"@) == 40
    &&& code("futures03::Stream"@) == 41
    &&& code("futures03::Sink"@) == 42
    &&& code("futures03::AsyncRead"@) == 43
    &&& code("futures03::AsyncWrite"@) == 44
    &&& code("futures03::AsyncSeek"@) == 45
    &&& code("futures03::AsyncBufRead"@) == 46
    &&& code("futures01::Future"@) == 47
    &&& code("futures01::Stream"@) == 48
    &&& code("futures01::Sink"@) == 49
    &&& code("rayon::ParallelIterator"@) == 50
    &&& code("rayon::IndexedParallelIterator"@) == 51
    &&& code("rayon::ParallelExtend"@) == 52
    &&& code("serde::Serialize"@) == 53
    &&& code("tokio1::AsyncRead"@) == 54
    &&& code("tokio1::AsyncWrite"@) == 55
    &&& code("tokio1::AsyncSeek"@) == 56
    &&& code("tokio1::AsyncBufRead"@) == 57
    &&& code("tokio03::AsyncRead"@) == 58
    &&& code("tokio03::AsyncWrite"@) == 59
    &&& code("tokio03::AsyncSeek"@) == 60
    &&& code("tokio03::AsyncBufRead"@) == 61
    &&& code("tokio02::AsyncRead"@) == 62
    &&& code("tokio02::AsyncWrite"@) == 63
    &&& code("tokio02::AsyncSeek"@) == 64
    &&& code("tokio02::AsyncBufRead"@) == 65
    &&& code("tokio01::AsyncRead"@) == 66
    &&& code("tokio01::AsyncWrite"@) == 67
    &&& code("http_body1::Body"@) == 68
    &&& code("Copy"@) == 69
    &&& code("Clone"@) == 70
    &&& code("Eq"@) == 71
    &&& code("PartialEq"@) == 72
    &&& code("PartialOrd"@) == 73
    &&& code("Ord"@) == 74
    }), #[trigger] code(s) == code(s);
pub uninterp spec fn pcode(s: Seq<char>) -> int;
pub broadcast axiom fn ax_path(s: Seq<char>)
    ensures ({ &&& true
    &&& pcode("core::convert::as_mut"@) == 0
    &&& pcode("core::convert::as_ref"@) == 1
    &&& pcode("core::fmt::debug"@) == 2
    &&& pcode("core::fmt::display"@) == 3
    &&& pcode("core::fmt::pointer"@) == 4
    &&& pcode("core::fmt::binary"@) == 5
    &&& pcode("core::fmt::octal"@) == 6
    &&& pcode("core::fmt::upper_hex"@) == 7
    &&& pcode("core::fmt::lower_hex"@) == 8
    &&& pcode("core::fmt::upper_exp"@) == 9
    &&& pcode("core::fmt::lower_exp"@) == 10
    &&& pcode("core::fmt::write"@) == 11
    &&& pcode("core::iter::iterator"@) == 12
    &&& pcode("core::iter::double_ended_iterator"@) == 13
    &&& pcode("core::iter::exact_size_iterator"@) == 14
    &&& pcode("core::iter::fused_iterator"@) == 15
    &&& pcode("core::iter::trusted_len"@) == 16
    &&& pcode("core::iter::extend"@) == 17
    &&& pcode("core::ops::deref"@) == 18
    &&& pcode("core::ops::deref_mut"@) == 19
    &&& pcode("core::ops::index"@) == 20
    &&& pcode("core::ops::index_mut"@) == 21
    &&& pcode("core::ops::range_bounds"@) == 22
    &&& pcode("core::ops::fn_"@) == 23
    &&& pcode("core::ops::fn_mut"@) == 24
    &&& pcode("core::ops::fn_once"@) == 25
    &&& pcode("core::ops::coroutine"@) == 26
    &&& pcode("core::future"@) == 27
    &&& pcode("std::io::read"@) == 28
    &&& pcode("std::io::buf_read"@) == 29
    &&& pcode("std::io::seek"@) == 30
    &&& pcode("std::io::write"@) == 31
    &&& pcode("std::error"@) == 32
    &&& pcode("ty_impls::transpose"@) == 33
    &&& pcode("external::futures03::stream"@) == 34
    &&& pcode("external::futures03::sink"@) == 35
    &&& pcode("external::futures03::async_read"@) == 36
    &&& pcode("external::futures03::async_write"@) == 37
    &&& pcode("external::futures03::async_seek"@) == 38
    &&& pcode("external::futures03::async_buf_read"@) == 39
    &&& pcode("external::futures01::future"@) == 40
    &&& pcode("external::futures01::stream"@) == 41
    &&& pcode("external::futures01::sink"@) == 42
    &&& pcode("external::rayon::par_iter"@) == 43
    &&& pcode("external::rayon::indexed_par_iter"@) == 44
    &&& pcode("external::rayon::par_extend"@) == 45
    &&& pcode("external::serde::serialize"@) == 46
    &&& pcode("external::tokio1::async_read"@) == 47
    &&& pcode("external::tokio1::async_write"@) == 48
    &&& pcode("external::tokio1::async_seek"@) == 49
    &&& pcode("external::tokio1::async_buf_read"@) == 50
    &&& pcode("external::tokio03::async_read"@) == 51
    &&& pcode("external::tokio03::async_write"@) == 52
    &&& pcode("external::tokio03::async_seek"@) == 53
    &&& pcode("external::tokio03::async_buf_read"@) == 54
    &&& pcode("external::tokio02::async_read"@) == 55
    &&& pcode("external::tokio02::async_write"@) == 56
    &&& pcode("external::tokio02::async_seek"@) == 57
    &&& pcode("external::tokio02::async_buf_read"@) == 58
    &&& pcode("external::tokio01::async_read"@) == 59
    &&& pcode("external::tokio01::async_write"@) == 60
    &&& pcode("external::http_body1::body"@) == 61
    }), #[trigger] pcode(s) == pcode(s);
pub open spec fn selects(s: Seq<char>) -> Option<Seq<char>> {
    if code(s) == 0 && s == "AsMut"@ { Some("core::convert::as_mut"@) } else if code(s) == 1 && s == "AsRef"@ { Some("core::convert::as_ref"@) } else if code(s) == 2 && s == "Debug"@ || code(s) == 3 && s == "fmt::Debug"@ { Some("core::fmt::debug"@) } else if code(s) == 4 && s == "Display"@ || code(s) == 5 && s == "fmt::Display"@ { Some("core::fmt::display"@) } else if code(s) == 6 && s == "fmt::Pointer"@ { Some("core::fmt::pointer"@) } else if code(s) == 7 && s == "fmt::Binary"@ { Some("core::fmt::binary"@) } else if code(s) == 8 && s == "fmt::Octal"@ { Some("core::fmt::octal"@) } else if code(s) == 9 && s == "fmt::UpperHex"@ { Some("core::fmt::upper_hex"@) } else if code(s) == 10 && s == "fmt::LowerHex"@ { Some("core::fmt::lower_hex"@) } else if code(s) == 11 && s == "fmt::UpperExp"@ { Some("core::fmt::upper_exp"@) } else if code(s) == 12 && s == "fmt::LowerExp"@ { Some("core::fmt::lower_exp"@) } else if code(s) == 13 && s == "fmt::Write"@ { Some("core::fmt::write"@) } else if code(s) == 14 && s == "Iterator"@ { Some("core::iter::iterator"@) } else if code(s) == 15 && s == "DoubleEndedIterator"@ { Some("core::iter::double_ended_iterator"@) } else if code(s) == 16 && s == "ExactSizeIterator"@ { Some("core::iter::exact_size_iterator"@) } else if code(s) == 17 && s == "FusedIterator"@ { Some("core::iter::fused_iterator"@) } else if code(s) == 18 && s == "TrustedLen"@ { Some("core::iter::trusted_len"@) } else if code(s) == 19 && s == "Extend"@ { Some("core::iter::extend"@) } else if code(s) == 20 && s == "Deref"@ { Some("core::ops::deref"@) } else if code(s) == 21 && s == "DerefMut"@ { Some("core::ops::deref_mut"@) } else if code(s) == 22 && s == "Index"@ { Some("core::ops::index"@) } else if code(s) == 23 && s == "IndexMut"@ { Some("core::ops::index_mut"@) } else if code(s) == 24 && s == "RangeBounds"@ { Some("core::ops::range_bounds"@) } else if code(s) == 25 && s == "Fn"@ { Some("core::ops::fn_"@) } else if code(s) == 26 && s == "FnMut"@ { Some("core::ops::fn_mut"@) } else if code(s) == 27 && s == "FnOnce"@ { Some("core::ops::fn_once"@) } else if code(s) == 28 && s == "Coroutine"@ { Some("core::ops::coroutine"@) } else if code(s) == 29 && s == "Future"@ { Some("core::future"@) } else if code(s) == 30 && s == "Read"@ || code(s) == 31 && s == "io::Read"@ { Some("std::io::read"@) } else if code(s) == 32 && s == "BufRead"@ || code(s) == 33 && s == "io::BufRead"@ { Some("std::io::buf_read"@) } else if code(s) == 34 && s == "Seek"@ || code(s) == 35 && s == "io::Seek"@ { Some("std::io::seek"@) } else if code(s) == 36 && s == "Write"@ || code(s) == 37 && s == "io::Write"@ { Some("std::io::write"@) } else if code(s) == 38 && s == "Error"@ || code(s) == 39 && s == "error::Error"@ { Some("std::error"@) } else if code(s) == 40 && s == "Transpose"@ { Some("ty_impls::transpose"@) } else if code(s) == 41 && s == "futures03::Stream"@ { Some("external::futures03::stream"@) } else if code(s) == 42 && s == "futures03::Sink"@ { Some("external::futures03::sink"@) } else if code(s) == 43 && s == "futures03::AsyncRead"@ { Some("external::futures03::async_read"@) } else if code(s) == 44 && s == "futures03::AsyncWrite"@ { Some("external::futures03::async_write"@) } else if code(s) == 45 && s == "futures03::AsyncSeek"@ { Some("external::futures03::async_seek"@) } else if code(s) == 46 && s == "futures03::AsyncBufRead"@ { Some("external::futures03::async_buf_read"@) } else if code(s) == 47 && s == "futures01::Future"@ { Some("external::futures01::future"@) } else if code(s) == 48 && s == "futures01::Stream"@ { Some("external::futures01::stream"@) } else if code(s) == 49 && s == "futures01::Sink"@ { Some("external::futures01::sink"@) } else if code(s) == 50 && s == "rayon::ParallelIterator"@ { Some("external::rayon::par_iter"@) } else if code(s) == 51 && s == "rayon::IndexedParallelIterator"@ { Some("external::rayon::indexed_par_iter"@) } else if code(s) == 52 && s == "rayon::ParallelExtend"@ { Some("external::rayon::par_extend"@) } else if code(s) == 53 && s == "serde::Serialize"@ { Some("external::serde::serialize"@) } else if code(s) == 54 && s == "tokio1::AsyncRead"@ { Some("external::tokio1::async_read"@) } else if code(s) == 55 && s == "tokio1::AsyncWrite"@ { Some("external::tokio1::async_write"@) } else if code(s) == 56 && s == "tokio1::AsyncSeek"@ { Some("external::tokio1::async_seek"@) } else if code(s) == 57 && s == "tokio1::AsyncBufRead"@ { Some("external::tokio1::async_buf_read"@) } else if code(s) == 58 && s == "tokio03::AsyncRead"@ { Some("external::tokio03::async_read"@) } else if code(s) == 59 && s == "tokio03::AsyncWrite"@ { Some("external::tokio03::async_write"@) } else if code(s) == 60 && s == "tokio03::AsyncSeek"@ { Some("external::tokio03::async_seek"@) } else if code(s) == 61 && s == "tokio03::AsyncBufRead"@ { Some("external::tokio03::async_buf_read"@) } else if code(s) == 62 && s == "tokio02::AsyncRead"@ { Some("external::tokio02::async_read"@) } else if code(s) == 63 && s == "tokio02::AsyncWrite"@ { Some("external::tokio02::async_write"@) } else if code(s) == 64 && s == "tokio02::AsyncSeek"@ { Some("external::tokio02::async_seek"@) } else if code(s) == 65 && s == "tokio02::AsyncBufRead"@ { Some("external::tokio02::async_buf_read"@) } else if code(s) == 66 && s == "tokio01::AsyncRead"@ { Some("external::tokio01::async_read"@) } else if code(s) == 67 && s == "tokio01::AsyncWrite"@ { Some("external::tokio01::async_write"@) } else if code(s) == 68 && s == "http_body1::Body"@ { Some("external::http_body1::body"@) } else { None }
}
pub open spec fn needs(s: Seq<char>) -> Seq<Seq<char>> {
    if s == "Copy"@ { seq!["Clone"@] } else if s == "Eq"@ { seq!["PartialEq"@] } else if s == "PartialOrd"@ { seq!["PartialEq"@] } else if s == "Ord"@ { seq!["PartialOrd"@, "Eq"@, "PartialEq"@] } else if s == "DerefMut"@ { seq!["Deref"@] } else if s == "IndexMut"@ { seq!["Index"@] } else if s == "Fn"@ { seq!["FnMut"@, "FnOnce"@] } else if s == "FnMut"@ { seq!["FnOnce"@] } else if s == "DoubleEndedIterator"@ { seq!["Iterator"@] } else if s == "ExactSizeIterator"@ { seq!["Iterator"@] } else if s == "FusedIterator"@ { seq!["Iterator"@] } else if s == "TrustedLen"@ { seq!["Iterator"@] } else if s == "BufRead"@ { seq!["Read"@] } else if s == "io::BufRead"@ { seq!["Read"@] } else if s == "Error"@ { seq!["Display"@, "Debug"@] } else if s == "error::Error"@ { seq!["Display"@, "Debug"@] } else if s == "rayon::IndexedParallelIterator"@ { seq!["rayon::ParallelIterator"@] } else if s == "futures03::AsyncBufRead"@ { seq!["futures03::AsyncRead"@] } else if s == "tokio1::AsyncBufRead"@ { seq!["tokio1::AsyncRead"@] } else if s == "tokio03::AsyncBufRead"@ { seq!["tokio03::AsyncRead"@] } else if s == "tokio02::AsyncBufRead"@ { seq!["tokio02::AsyncRead"@] } else if s == "tokio01::AsyncRead"@ { seq!["Read"@] } else if s == "tokio01::AsyncWrite"@ { seq!["Write"@] } else { Seq::empty() }
}
/// The other name of a trait that has two.
pub open spec fn other(s: Seq<char>) -> Option<Seq<char>> {
    if s == "Debug"@ { Some("fmt::Debug"@) } else if s == "fmt::Debug"@ { Some("Debug"@) } else if s == "Display"@ { Some("fmt::Display"@) } else if s == "fmt::Display"@ { Some("Display"@) } else if s == "Read"@ { Some("io::Read"@) } else if s == "io::Read"@ { Some("Read"@) } else if s == "BufRead"@ { Some("io::BufRead"@) } else if s == "io::BufRead"@ { Some("BufRead"@) } else if s == "Seek"@ { Some("io::Seek"@) } else if s == "io::Seek"@ { Some("Seek"@) } else if s == "Write"@ { Some("io::Write"@) } else if s == "io::Write"@ { Some("Write"@) } else if s == "Error"@ { Some("error::Error"@) } else if s == "error::Error"@ { Some("Error"@) } else { None }
}
