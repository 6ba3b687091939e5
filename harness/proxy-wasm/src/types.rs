#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
pub enum LogLevel { Trace = 0, Debug = 1, Info = 2, Warn = 3, Error = 4, Critical = 5 }
#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
#[non_exhaustive]
pub enum Action { Continue = 0, Pause = 1 }
#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
#[non_exhaustive]
pub enum Status { Ok = 0, NotFound = 1, BadArgument = 2, SerializationFailure = 3, ParseFailure = 4, Empty = 7, CasMismatch = 8, InternalFailure = 10 }
#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
#[non_exhaustive]
pub enum ContextType { HttpContext = 0, StreamContext = 1 }
#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
#[non_exhaustive]
pub enum BufferType { HttpRequestBody = 0, HttpResponseBody = 1, DownstreamData = 2, UpstreamData = 3, HttpCallResponseBody = 4, GrpcReceiveBuffer = 5, VmConfiguration = 6, PluginConfiguration = 7, CallData = 8 }
#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
#[non_exhaustive]
pub enum MapType { HttpRequestHeaders = 0, HttpRequestTrailers = 1, HttpResponseHeaders = 2, HttpResponseTrailers = 3, GrpcReceiveInitialMetadata = 4, GrpcReceiveTrailingMetadata = 5, HttpCallResponseHeaders = 6, HttpCallResponseTrailers = 7 }
#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
#[non_exhaustive]
pub enum MetricType { Counter = 0, Gauge = 1, Histogram = 2 }
#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
#[non_exhaustive]
pub enum GrpcStatusCode { Ok = 0, Cancelled = 1, Unknown = 2, InvalidArgument = 3, DeadlineExceeded = 4, NotFound = 5, AlreadyExists = 6, PermissionDenied = 7, ResourceExhausted = 8, FailedPrecondition = 9, Aborted = 10, OutOfRange = 11, Unimplemented = 12, Internal = 13, Unavailable = 14, DataLoss = 15, Unauthenticated = 16 }
pub type Bytes = Vec<u8>;
