----------------------------- MODULE C26Trace -----------------------------
EXTENDS TraceBase, Precision
\* setup: objs, fields (name -> converted when read?), eps, mag
Init0(s) == [eps |-> s.eps, mag |-> s.mag,
             w |-> [val |-> [o \in 1..s.objs |-> [f \in DOMAIN s.fields |-> NoValue]], mode |-> [o \in 1..s.objs |-> "ord"],
                    conv |-> s.fields]]
R(s, bad) == [st |-> s, bad |-> bad]
Reads(s, e, w) == Clause("reads-own-value", \A o \in DOMAIN w.val, f \in DOMAIN w.conv : e.got[o][f].v = Read(w, o, f).v)
                  \cup Clause("reads-own-type", \A o \in DOMAIN w.val, f \in DOMAIN w.conv : e.got[o][f].ty = Read(w, o, f).ty)
                  \cup Clause("error", e.err = "ok")
Step(s, e) ==
  CASE e.ev = "start" -> LET w == [s.w EXCEPT !.val = e.val, !.mode = e.mode] IN R([s EXCEPT !.w = w], Reads(s, e, w))
    [] e.ev = "set" -> LET w == SetField(s.w, e.o, e.f, [v |-> e.v, ty |-> e.ty]) IN R([s EXCEPT !.w = w], Reads(s, e, w))
    [] e.ev = "clear" -> LET w == SetField(s.w, e.o, e.f, NoValue) IN R([s EXCEPT !.w = w], Reads(s, e, w))
    [] e.ev = "mode" -> LET w == SetMode(s.w, e.o, e.m) IN R([s EXCEPT !.w = w], Reads(s, e, w))
    [] e.ev = "copy" -> LET w == Copy(s.w, e.o, e.to) IN R([s EXCEPT !.w = w], Reads(s, e, w))
    \* One step of a plan, as reported in both number types:
    [] e.ev = "both" -> R(s,
          Clause("same-report", e.shape /\ Len(e.lo) = Len(e.hi))
          \cup (IF ~e.shape \/ Len(e.lo) # Len(e.hi) THEN {} ELSE
            Clause("same-text", \A i \in DOMAIN e.tlo : e.tlo[i] = e.thi[i])
            \cup Clause("same-numbers", \A i \in DOMAIN e.lo : Agrees(e.lo[i], e.hi[i], s.mag, s.eps)))
          \cup Clause("number-type", \A i \in DOMAIN e.types : e.types[i] \in Allowed("dec")))
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
============================================================================
