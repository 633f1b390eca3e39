----------------------------- MODULE SetupBuilder -----------------------------
(* The builder of SETUP frames: one setting after another, then the frame.   *)
EXTENDS Frames

VARIABLE b          \* the arguments collected so far

\* "application/binary"
DefaultMime == Lit(<<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47,
                     98, 105, 110, 97, 114, 121>>)
Defaults ==
    [k |-> "SETUP", resume |-> FALSE, lease |-> FALSE, maj |-> 1, min |-> 0,
     ka |-> <<0, 0, 117, 48>>, lt |-> <<0, 0, 234, 96>>,       \* 30 s, 60 s
     tok |-> None, mm |-> DefaultMime, dm |-> DefaultMime,
     meta |-> None, data |-> None]

Settings == {"resume", "lease", "version", "ka", "lt", "tok", "mm", "dm", "meta", "data"}

\* What one setting changes.
Set(x, s) ==
    CASE s.o = "resume"  -> [x EXCEPT !.resume = TRUE]
      [] s.o = "lease"   -> [x EXCEPT !.lease = TRUE]
      [] s.o = "version" -> [x EXCEPT !.maj = s.maj, !.min = s.min]
      [] s.o = "ka"   -> [x EXCEPT !.ka = s.v]
      [] s.o = "lt"   -> [x EXCEPT !.lt = s.v]
      [] s.o = "tok"  -> [x EXCEPT !.tok = Some(s.v)]
      [] s.o = "mm"   -> [x EXCEPT !.mm = s.v]
      [] s.o = "dm"   -> [x EXCEPT !.dm = s.v]
      [] s.o = "meta" -> [x EXCEPT !.meta = Some(s.v)]
      [] s.o = "data" -> [x EXCEPT !.data = Some(s.v)]

BuilderInit == b = Defaults
Apply(s) == b' = Set(b, s)
BuildOuts == {[t |-> "ok", acc |-> View(Make(b)), flags |-> Make(b).fl]}
=============================================================================
