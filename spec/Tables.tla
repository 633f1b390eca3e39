-------------------------------- MODULE Tables --------------------------------
(***************************************************************************)
(* What is looked up and not remembered: mime types, errors, frame types    *)
(* and flags, 24-bit integers, versions.  The tables are the protocol's.    *)
(***************************************************************************)
EXTENDS Frames

----------------------------------------------------------------------------
(* Mime types (RSocket extension WellKnownMimeTypes).                       *)

Mimes == <<
    <<"UNPARSEABLE", "">>,
    <<"APPLICATION_AVRO", "application/avro">>,
    <<"APPLICATION_CBOR", "application/cbor">>,
    <<"APPLICATION_GRAPHQL", "application/graphql">>,
    <<"APPLICATION_GZIP", "application/gzip">>,
    <<"APPLICATION_JAVASCRIPT", "application/javascript">>,
    <<"APPLICATION_JSON", "application/json">>,
    <<"APPLICATION_OCTET_STREAM", "application/octet-stream">>,
    <<"APPLICATION_PDF", "application/pdf">>,
    <<"APPLICATION_VND_APACHE_THRIFT_BINARY", "application/vnd.apache.thrift.binary">>,
    <<"APPLICATION_VND_GOOGLE_PROTOBUF", "application/vnd.google.protobuf">>,
    <<"APPLICATION_XML", "application/xml">>,
    <<"APPLICATION_ZIP", "application/zip">>,
    <<"AUDIO_AAC", "audio/aac">>,
    <<"AUDIO_MP3", "audio/mp3">>,
    <<"AUDIO_MP4", "audio/mp4">>,
    <<"AUDIO_MPEG3", "audio/mpeg3">>,
    <<"AUDIO_MPEG", "audio/mpeg">>,
    <<"AUDIO_OGG", "audio/ogg">>,
    <<"AUDIO_OPUS", "audio/opus">>,
    <<"AUDIO_VORBIS", "audio/vorbis">>,
    <<"IMAGE_BMP", "image/bmp">>,
    <<"IMAGE_GIF", "image/gif">>,
    <<"IMAGE_HEIC_SEQUENCE", "image/heic-sequence">>,
    <<"IMAGE_HEIC", "image/heic">>,
    <<"IMAGE_HEIF_SEQUENCE", "image/heif-sequence">>,
    <<"IMAGE_HEIF", "image/heif">>,
    <<"IMAGE_JPEG", "image/jpeg">>,
    <<"IMAGE_PNG", "image/png">>,
    <<"IMAGE_TIFF", "image/tiff">>,
    <<"MULTIPART_MIXED", "multipart/mixed">>,
    <<"TEXT_CSS", "text/css">>,
    <<"TEXT_CSV", "text/csv">>,
    <<"TEXT_HTML", "text/html">>,
    <<"TEXT_PLAIN", "text/plain">>,
    <<"TEXT_XML", "text/xml">>,
    <<"VIDEO_H264", "video/H264">>,
    <<"VIDEO_H265", "video/H265">>,
    <<"VIDEO_VP8", "video/VP8">>,
    <<"APPLICATION_X_HESSIAN", "application/x-hessian">>,
    <<"APPLICATION_X_JAVA_OBJECT", "application/x-java-object">>,
    <<"APPLICATION_CLOUDEVENTS_JSON", "application/cloudevents+json">>,
    <<"MESSAGE_X_RSOCKET_MIME_TYPE_V0", "message/x.rsocket.mime-type.v0">>,
    <<"MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0", "message/x.rsocket.accept-mime-types.v0">>,
    <<"MESSAGE_X_RSOCKET_AUTHENTICATION_V0", "message/x.rsocket.authentication.v0">>,
    <<"MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0", "message/x.rsocket.tracing-zipkin.v0">>,
    <<"MESSAGE_X_RSOCKET_ROUTING_V0", "message/x.rsocket.routing.v0">>,
    <<"MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0", "message/x.rsocket.composite-metadata.v0">>
>>
\* The value a string stands for, as an index.
Parsed(text) ==
    LET S == {i \in 2..Len(Mimes) : Mimes[i][2] = text}
    IN  IF S = {} THEN 1 ELSE CHOOSE i \in S : TRUE
MimeOuts(i) == {[t |-> "ok", name |-> Mimes[i][1], text |-> Mimes[i][2], back |-> Mimes[i][1]]}
ParseOuts(text) ==
    {[t |-> "ok", name |-> Mimes[Parsed(text)][1], text |-> Mimes[Parsed(text)][2]]}

----------------------------------------------------------------------------
(* Errors: name, start of the text, code, stream scope ("zero", "one").     *)

Protocol == <<
    [kind |-> "InvalidSetup",     text |-> "INVALID_SETUP (0x00000001)",     num |-> Code(0, 1)],
    [kind |-> "UnsupportedSetup", text |-> "UNSUPPORTED_SETUP (0x00000002)", num |-> Code(0, 2)],
    [kind |-> "RejectedSetup",    text |-> "REJECTED_SETUP (0x00000003)",    num |-> Code(0, 3)],
    [kind |-> "RejectedResume",   text |-> "REJECTED_RESUME (0x00000004)",   num |-> Code(0, 4)],
    [kind |-> "ConnectionError",  text |-> "CONNECTION_ERROR (0x00000101)",  num |-> Code(1, 1)],
    [kind |-> "ConnectionClose",  text |-> "CONNECTION_CLOSE (0x00000102)",  num |-> Code(1, 2)],
    [kind |-> "ApplicationError", text |-> "APPLICATION_ERROR (0x00000201)", num |-> Code(2, 1)],
    [kind |-> "Rejected",         text |-> "REJECTED (0x00000202)",          num |-> Code(2, 2)],
    [kind |-> "Canceled",         text |-> "CANCELED (0x00000203)",          num |-> Code(2, 3)],
    [kind |-> "Invalid",          text |-> "INVALID (0x00000204)",           num |-> Code(2, 4)]
>>
ProtocolKinds == {Protocol[i].kind : i \in 1..10}
DecodeKinds == {"InComplete", "UnrecognizedFrameType", "InvalidStreamId"}
SetupKinds == {"InvalidSetup", "UnsupportedSetup", "RejectedSetup"}
Entry(kind) == Protocol[CHOOSE i \in 1..10 : Protocol[i].kind = kind]

\* The queries that answer yes.
Yes(kind) ==
    IF kind \in ProtocolKinds
    THEN {"protocol", kind} \cup (IF kind \in SetupKinds THEN {"setup"} ELSE {})
    ELSE IF kind \in DecodeKinds THEN {"decode"} ELSE {}

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
HasWithin(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p

\* The text: the own name and number, or a word for decoding or I/O; then the
\* cause, if there is one.
TextFits(kind, text, cause) ==
    LET n == IF Has(cause) THEN Len(text) - Len(cause[1]) ELSE Len(text)
        own == SubSeq(text, 1, n)
    IN  /\ Has(cause) => EndsWith(text, cause[1]) /\ n >= 0
        /\ CASE kind \in ProtocolKinds ->
                    /\ StartsWith(text, Entry(kind).text)
                    /\ ~Has(cause) => text = Entry(kind).text
                    /\ Has(cause) => Len(text) >= Len(Entry(kind).text) + Len(cause[1])
             [] kind \in DecodeKinds -> HasWithin(own, "decod")
             [] OTHER -> HasWithin(own, "I/O")
\* What the cause of a decode error says: the fault, with the code or the ids
\* it is about.
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Hex(_)
Hex(n) == IF n < 16 THEN HexDigit[n + 1] ELSE Hex(n \div 16) \o HexDigit[(n % 16) + 1]
RECURSIVE Decimal(_)
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Decimal(n) == IF n < 10 THEN Digit[n + 1] ELSE Decimal(n \div 10) \o Digit[(n % 10) + 1]
\* The word, not followed by more of it.
Named(text, word) == \E c \in {".", ")", ",", ";", ":", " ", "]"} : HasWithin(text \o ".", word \o c)
DecodeTextFits(kind, about, text) ==
    CASE kind = "InComplete" -> HasWithin(text, "incomplete")
      [] kind = "UnrecognizedFrameType" ->
            HasWithin(text, "unrecognized") /\ Named(text, "0x" \o Hex(about.code))
      [] OTHER -> /\ HasWithin(text, "stream") /\ HasWithin(text, "invalid")
                  /\ Named(text, "expected " \o about.want) /\ Named(text, "found " \o Decimal(about.got))

ErrorFits(kind, src, about, r) ==
    /\ r.t = "ok"
    \* a fault of the system is the cause itself, not only its text
    /\ r.same
    \* it can be printed for debugging
    /\ r.shown
    /\ kind \in DecodeKinds => r.said = Some(r.cause[1]) /\ DecodeTextFits(kind, about, r.cause[1])
    /\ {r.yes[i] : i \in 1..Len(r.yes)} = Yes(kind)
    /\ TextFits(kind, r.text, r.cause)
    \* the cause given is the cause reported; decode errors are their own cause
    /\ kind \in ProtocolKinds => r.cause = src
    /\ kind \notin ProtocolKinds => Has(r.cause)
    \* an error of the system says what it says on its own
    /\ kind = "Io" => r.cause = IF Has(src) THEN src ELSE r.said

\* A public code: its number, and what an ERROR frame with it is accepted on.
CodeOuts(i) ==
    LET e == Protocol[i]
        on(sid) == LET d == Decode(CatAll(<<Header(sid, "ERROR", 0), Lit(e.num)>>))
                   IN  IF d.t = "ok" THEN "ok" ELSE "sid"
    IN  {[t |-> "ok", name |-> e.kind, num |-> e.num, made |-> e.num,
          zero |-> on(Zero32), one |-> on(<<0, 0, 0, 1>>)]}

\* The codes by name, in the order of the table, and the range of codes of
\* applications (0x301 to 0xFFFFFFFE).
OwnCodes ==
    {[t |-> "ok", nums |-> [i \in 1..10 |-> Protocol[i].num]
                           \o <<Code(3, 1), <<255, 255, 255, 254>>>>]}

----------------------------------------------------------------------------
(* Frame types and flags.                                                   *)

Types == [i \in 1..15 |-> IF i = 15 THEN "EXT" ELSE Kinds[i]]
TypeValue(i) == IF i = 15 THEN ExtCode ELSE i
NameOf(code) ==
    IF code \in 1..14 THEN Some(Kinds[code]) ELSE IF code = ExtCode THEN Some("EXT") ELSE None
TypeOuts(i) ==
    {[t |-> "ok", name |-> Types[i], value |-> TypeValue(i), bits |-> 1024 * TypeValue(i),
      fromv |-> Some(Types[i]), fromb |-> Some(Types[i])]}
\* The kinds that name a type or a stream id.
OwnTypes ==
    {[t |-> "ok", types |-> SelectSeq(Kinds, LAMBDA x : x \notin {"LEASE", "RESUME", "RESUME_OK"}),
      ids |-> [i \in 1..Cardinality(ConnKinds) |-> Zero32]]}
\* A sequence as runs of equal values.
RECURSIVE Runs(_)
Runs(s) ==
    IF s = <<>> THEN <<>>
    ELSE LET rest == Runs(Tail(s)) IN
         IF rest # <<>> /\ rest[1][1] = Head(s)
         THEN <<<<Head(s), rest[1][2] + 1>>>> \o Tail(rest)
         ELSE <<<<Head(s), 1>>>> \o rest
ValueRuns == Runs([i \in 1..64 |-> NameOf(i - 1)])
\* The bit form depends on the top six bits alone: 1024 words for each code.
WordRuns == [i \in 1..Len(ValueRuns) |-> <<ValueRuns[i][1], 1024 * ValueRuns[i][2]>>]

FlagNames == {<<"ignore", IGNORE>>, <<"metadata", METADATA>>, <<"follows", FOLLOWS>>,
              <<"resume", RESUME>>, <<"respond", RESPOND>>, <<"complete", COMPLETE>>,
              <<"lease", LEASE>>, <<"next", NEXT>>}
FlagsFit(w, r) ==
    /\ r.t = "ok" /\ r.bits = DefinedFlags(w)
    /\ {r.is[i] : i \in 1..Len(r.is)} = {x[1] : x \in {y \in FlagNames : Bit(w, y[2])}}

----------------------------------------------------------------------------
(* 24-bit integers and versions.                                            *)

Routes == {"u32-u32", "u32-usize", "usize-u32", "usize-usize", "parts-u32", "parts-usize",
           "u32-bytes", "usize-bytes", "parts-bytes"}
\* The same number comes out, wherever it went in.
U24Outs(lo, hi) == {[t |-> "ok", runs |-> <<<<0, hi - lo>>>>]}
\* Eight octets, of a number that does not fit in three (as 32 bits for u32).
OverOuts(route, v) ==
    LET seen == IF route = "u32" THEN SubSeq(v, 5, 8) ELSE v
        n == Len(seen)
    IN  IF \A i \in 1..(n - 3) : seen[i] = 0
        THEN {[t |-> "ok", v |-> U24(SubSeq(seen, n - 2, n))]}
        ELSE {[t |-> "panic"]}

\* The default version and the largest numbers of 24, 31 and 63 bits.
Top31 == <<127, 255, 255, 255>>
LimitsOuts ==
    {[t |-> "ok", maj |-> 1, min |-> 0, u24 |-> MaxU24, u31 |-> Top31,
      u63 |-> <<Top31, <<255, 255, 255, 255>>>>]}
Order(a, b) ==
    IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
    ELSE IF a[2] = b[2] THEN 0 ELSE IF a[2] < b[2] THEN -1 ELSE 1
VersionsOuts(a, b) ==
    LET c == Order(a, b)
    IN  {[t |-> "ok", maj |-> a[1], min |-> a[2],
          text |-> Decimal(a[1]) \o "." \o Decimal(a[2]),
          enc |-> Lit(Oct16(a[1]) \o Oct16(a[2])),
          cmp |-> c, pcmp |-> c, lt |-> c < 0, le |-> c <= 0, gt |-> c > 0, ge |-> c >= 0,
          eq |-> c = 0, max |-> IF c > 0 THEN a ELSE b]}
=============================================================================
