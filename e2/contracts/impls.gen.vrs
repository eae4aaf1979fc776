=== tree
derive
=== impls
Iterator C01
DoubleEndedIterator C01
ExactSizeIterator C01
FusedIterator C01
TrustedLen C01
Extend C01
Debug C02
Display C02
fmt::Pointer C02
fmt::Binary C02
fmt::Octal C02
fmt::UpperHex C02
fmt::LowerHex C02
fmt::UpperExp C02
fmt::LowerExp C02
fmt::Write C02
AsRef C02
AsMut C02
Deref C02
DerefMut C02
Index C02
IndexMut C02
RangeBounds C02
Fn C02
FnMut C02
FnOnce C02
Error C02
Read C03
BufRead C03
Seek C03
Write C03
Future C04 pin
Coroutine C04 pin
futures03::Stream C04 pin
futures03::Sink C04 pin
futures03::AsyncRead C04 pin
futures03::AsyncWrite C04 pin
futures03::AsyncSeek C04 pin
futures03::AsyncBufRead C04 pin
tokio1::AsyncRead C04 pin
tokio1::AsyncWrite C04 pin
tokio1::AsyncSeek C04 pin
tokio1::AsyncBufRead C04 pin
tokio03::AsyncRead C04 pin
tokio03::AsyncWrite C04 pin
tokio03::AsyncSeek C04 pin
tokio03::AsyncBufRead C04 pin
tokio02::AsyncRead C04 pin
tokio02::AsyncWrite C04 pin
tokio02::AsyncSeek C04 pin
tokio02::AsyncBufRead C04 pin
http_body1::Body C04 pin
futures01::Future C05
futures01::Stream C05
futures01::Sink C05
tokio01::AsyncRead C05
tokio01::AsyncWrite C05
rayon::ParallelIterator C05
rayon::IndexedParallelIterator C05
rayon::ParallelExtend C05
serde::Serialize C05
Transpose C09 fallible
