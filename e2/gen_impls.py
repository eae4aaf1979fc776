#!/usr/bin/env python3
"""Writes contracts/impls.gen.vrs: the supported traits, the property that speaks of each, and which are
implemented through pinned references (the table of E6, written from the traits' definitions)."""
T = """
C01: Iterator DoubleEndedIterator ExactSizeIterator FusedIterator TrustedLen Extend
C02: Debug Display fmt::Pointer fmt::Binary fmt::Octal fmt::UpperHex fmt::LowerHex fmt::UpperExp fmt::LowerExp fmt::Write AsRef AsMut Deref DerefMut Index IndexMut RangeBounds Fn FnMut FnOnce Error
C03: Read BufRead Seek Write
C04: Future+ Coroutine+ futures03::Stream+ futures03::Sink+ futures03::AsyncRead+ futures03::AsyncWrite+ futures03::AsyncSeek+ futures03::AsyncBufRead+ tokio1::AsyncRead+ tokio1::AsyncWrite+ tokio1::AsyncSeek+ tokio1::AsyncBufRead+ tokio03::AsyncRead+ tokio03::AsyncWrite+ tokio03::AsyncSeek+ tokio03::AsyncBufRead+ tokio02::AsyncRead+ tokio02::AsyncWrite+ tokio02::AsyncSeek+ tokio02::AsyncBufRead+ http_body1::Body+
C05: futures01::Future futures01::Stream futures01::Sink tokio01::AsyncRead tokio01::AsyncWrite rayon::ParallelIterator rayon::IndexedParallelIterator rayon::ParallelExtend serde::Serialize
C09: Transpose?
"""
o = ["=== tree", "derive", "=== impls"]
for l in T.strip().splitlines():
    p, ns = l.split(": ")
    for n in ns.split():
        o.append(n.rstrip("+?") + f" {p}" + (" pin" if n.endswith("+") else "") + (" fallible" if n.endswith("?") else ""))
open(__file__.rsplit("/", 1)[0] + "/contracts/impls.gen.vrs", "w").write("\n".join(o) + "\n")
